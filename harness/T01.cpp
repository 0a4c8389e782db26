// Charset driver. start from to; cat|cpy mode limit times block-length units..
#include <stdex/unicode.hpp>
#include "common.hpp"
using vf::ints; using vf::event; using stdex::charset_id;
template <class T> static long long of(T c) { return sizeof(T) == 1 ? (long long)(uint8_t)c : sizeof(T) == 2 ? (long long)(uint16_t)c : (long long)c; }
static size_t L(long long n) { return n < 0 ? SIZE_MAX : (size_t)n; }
// a text at the very end of a heap block
template <class T> struct mem {
	std::unique_ptr<T[]> p; size_t n;
	mem(const ints& a, size_t i) {
		size_t t = (size_t)a[i + 1], k = (size_t)a[i + 2]; n = (a.size() - i - 3 - k) + t * k; p.reset(new T[n]); size_t o = 0;
		while (t--) for (size_t j = 0; j < k; ++j) p[o++] = (T)a[i + 3 + j];
		for (size_t j = i + 3 + k; j < a.size(); ++j) p[o++] = (T)a[j];
	}
};
template <class F, class T> static void go(const vf::scenario_t& s)
{
	std::unique_ptr<stdex::charset_encoder<F, T>> e; std::basic_string<T> d; bool dirty = false;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") { e.reset(new stdex::charset_encoder<F, T>((charset_id)a[0], (charset_id)a[1])); }
		else if (op == "set") { d.clear(); for (auto c : a) d += (T)c; }
		else if (op == "clear") { e->clear(); dirty = false; }
		else if (op == "which") r = { (long long)e->from_encoding(), (long long)e->to_encoding() };
		else if (op == "name") { std::string n(a.begin(), a.end()); r = { (long long)(n.size() & 1 ? stdex::charset_from_name(n) : stdex::charset_from_name(n.c_str())) }; }
		else if (op == "cat" || op == "cpy") {
			mem<F> m(a, 1); auto old = d; bool cpy = op == "cpy"; if (cpy) old.clear(); auto src = (const F*)m.p.get(); bool thrown = false;
			try {
				if (a[0] == 0) { if (cpy) e->strcpy(d, src, L(a[1])); else e->strcat(d, src, L(a[1])); }
				else if (a[0] == 1) { if (cpy) e->strcpy(d, src); else e->strcat(d, src); }
				else if (a[0] == 2) { std::basic_string_view<F> v(src, m.n); if (cpy) e->strcpy(d, v); else e->strcat(d, v); }
				else if (a[0] == 3) d = old + e->convert(src, L(a[1]));
				else if (a[0] == 4) d = old + e->convert(src);
				else d = old + e->convert(std::basic_string_view<F>(src, m.n));
			} catch (std::exception&) { thrown = true; }
			bool kept = d.size() >= old.size() && std::equal(old.begin(), old.end(), d.begin());
			if (dirty) { d = old; r = { -1, kept }; }
			else if (thrown) { d = old; dirty = true; r = { -99, kept }; }
			else if (e->to_encoding() == charset_id::utf7) {
				ints b; for (size_t i = old.size(); i < d.size(); ++i) b.push_back(of(d[i]));
				b.insert(b.begin(), (long long)b.size()); b.insert(b.end(), a.begin() + 1, a.end()); d = old; event("to7", b, { 0, kept }); continue;
			}
			else { r = { 0 }; for (auto c : d) r.push_back(of(c)); }
		}
		else if (op == "free") {
			auto cs = (charset_id)a[3]; bool kept = true;
			auto f = [&](auto& dst, auto* src, size_t n, auto wide) {
				if (a[1]) { dst += 'A'; dst += 'B'; }
				else { dst += 'X'; }
				size_t lim = L(a[4]);
				using C = typename std::remove_cv<typename std::remove_reference<decltype(*src)>::type>::type; std::basic_string_view<C> v(src, n);
				if (a[1]) { if (a[0] == 0) stdex::strcat(dst, src, lim, cs); else if (a[0] == 1) stdex::strcat(dst, v, cs); else if constexpr (wide.value) { if (a[0] == 2) stdex::str2wstr(dst, src, lim, cs); else stdex::str2wstr(dst, v, cs); } else { if (a[0] == 2) stdex::wstr2str(dst, src, lim, cs); else stdex::wstr2str(dst, v, cs); } }
				else { if (a[0] == 0) stdex::strcpy(dst, src, lim, cs); else if (a[0] == 1) stdex::strcpy(dst, v, cs);
					else if constexpr (wide.value) dst = a[0] == 2 ? (lim == SIZE_MAX ? stdex::str2wstr(src, cs) : stdex::str2wstr(src, lim, cs)) : stdex::str2wstr(v, cs);
					else dst = a[0] == 2 ? (lim == SIZE_MAX ? stdex::wstr2str(src, cs) : stdex::wstr2str(src, lim, cs)) : stdex::wstr2str(v, cs); }
			};
			try {
				if (a[2]) { mem<char> m(a, 4); std::wstring x; f(x, (const char*)m.p.get(), m.n, std::true_type()); r = { 0 }; for (auto c : x) r.push_back(of(c)); }
				else { mem<wchar_t> m(a, 4); std::string x; f(x, (const wchar_t*)m.p.get(), m.n, std::false_type());
					if (cs == charset_id::utf7) {
						bool pre = !a[1] || x.compare(0, 2, "AB") == 0; if (a[1]) x.erase(0, 2);
						ints b = { (long long)x.size() }; for (auto c : x) b.push_back(of(c)); b.insert(b.end(), a.begin() + 4, a.end()); event("free7", b, { 0, pre }); continue;
					}
					r = { 0 }; for (auto c : x) r.push_back(of(c)); }
			} catch (std::exception&) { r = { -99, 1 }; }
		}
		event(op.c_str(), a, r);
	}
}
template <class F> static void to(const vf::scenario_t& s) { auto t = s.ops[0].a[1]; if (t == 3) go<F, char16_t>(s); else if (t == 4) go<F, wchar_t>(s); else go<F, char>(s); }
static void scenario(const vf::scenario_t& s) { auto f = s.ops[0].a[0]; if (f == 3) to<char16_t>(s); else if (f == 4) to<wchar_t>(s); else to<char>(s); }
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
