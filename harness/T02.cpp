// SGML driver: see Sgml.tla for arguments
#include <stdex/sgml.hpp>
#include "common.hpp"
using vf::ints; using vf::event; using std::basic_string;
static size_t L(long long n) { return n < 0 ? SIZE_MAX : (size_t)n; }
template <class T> static long long of(T c) { return sizeof(T) == 2 ? (long long)(uint16_t)c : sizeof(T) == 1 ? (long long)(uint8_t)c : (long long)c; }
// a text at the very end of a heap block
template <class T> struct mem { std::unique_ptr<T[]> p; size_t n; mem(const ints& a, size_t i, size_t e) : n(e - i) { p.reset(new T[n]); for (size_t k = 0; k < n; ++k) p[k] = (T)a[i + k]; } };
template <class T> struct dest {
	std::unique_ptr<T[]> p;
	dest(const ints& a, size_t i, size_t e, size_t cap) : p(new T[cap]) { for (size_t k = 0; k < cap; ++k) p[k] = k < e - i ? (T)a[i + k] : k == e - i ? T() : (T)'~'; }
};
static int fl(long long w) { return (int)(w & 0xfff) | (w & 4096 ? stdex::sgml_full : 0); }
template <class To, class From> static ints dec(const ints& a)
{
	size_t s = 8 + a[7]; mem<From> m(a, s + 1, a.size()); size_t lim = L(a[s]); const From* src = m.p.get(); int skip = fl(a[3]);
	basic_string<To> d; for (size_t i = 8; i < s; ++i) d += (To)a[i];
	stdex::mapping_vector<size_t> mv, *map = a[5] < 0 ? nullptr : &mv; stdex::mapping<size_t> off(a[5] < 0 ? 0 : a[5], a[6]);
	basic_string<From> str(src, lim < m.n ? lim : m.n); ints r; size_t j = 0; int f = (int)a[2];
	if (f == 1 || f == 4 || f == 6) if (map) map->push_back(stdex::mapping<size_t>(77, 77));
	try {
		if (f == 0) stdex::sgml2strcat(d, src, lim, skip, off, map);
		else if (f == 1) stdex::sgml2strcpy(d, src, lim, skip, off, map);
		else if (f == 2) d = stdex::sgml2str<To>(src, lim, skip, off, map);
		else if (f == 5) stdex::sgml2strcat(d, str, skip, off, map);
		else if (f == 6) stdex::sgml2strcpy(d, str, skip, off, map);
		else if (f == 7) d = stdex::sgml2str<To>(str, skip, off, map);
		else {
			size_t cap = (size_t)a[4]; dest<To> b(a, 8, s, cap);
			j = f == 3 ? stdex::sgml2strcat(b.p.get(), cap, src, lim, skip, off, map) : stdex::sgml2strcpy(b.p.get(), cap, src, lim, skip, off, map);
			d.assign(b.p.get(), stdex::strnlen(b.p.get(), cap));
		}
	} catch (std::invalid_argument&) { return { -99 }; }
	r = { (long long)j, (long long)mv.size() }; for (auto& p : mv) { r.push_back((long long)p.from); r.push_back((long long)p.to); }
	for (auto c : d) r.push_back(of(c));
	return r;
}
template <class T> static ints err(const ints& a)
{
	mem<T> m(a, 4, a.size()); size_t lim = L(a[3]);
	size_t e = a[1] ? stdex::sgmlerr(basic_string<T>(m.p.get(), lim < m.n ? lim : m.n), fl(a[2])) : stdex::sgmlerr((const T*)m.p.get(), lim, fl(a[2]));
	return { e == stdex::npos ? -1 : (long long)e };
}
template <class T> static ints enc(ints& a)
{
	size_t p = 5 + a[4]; size_t n = (size_t)a[p + 1]; mem<T> m(a, p + 2, p + 2 + n); size_t lim = L(a[p]); const T* src = m.p.get(); int w = fl(a[2]), f = (int)a[1];
	basic_string<T> str(src, lim < n ? lim : n); std::string d; for (size_t i = 5; i < p; ++i) d += (char)a[i];
	auto o = stdex::str2sgml(src, lim, w); for (auto c : o) a.push_back(of(c));
	size_t j = 0;
	try {
		if (f == 0) stdex::str2sgmlcat(d, src, lim, w);
		else if (f == 1) stdex::str2sgmlcpy(d, src, lim, w);
		else if (f == 2) d = o;
		else if (f == 5) stdex::str2sgmlcat(d, str, w);
		else if (f == 6) stdex::str2sgmlcpy(d, str, w);
		else if (f == 7) d = stdex::str2sgml(str, w);
		else {
			size_t cap = (size_t)a[3]; dest<char> b(a, 5, p, cap);
			j = f == 3 ? stdex::str2sgmlcat(b.p.get(), cap, src, lim, w) : stdex::str2sgmlcpy(b.p.get(), cap, src, lim, w);
			d.assign(b.p.get(), stdex::strnlen(b.p.get(), cap));
		}
	} catch (std::invalid_argument&) { return { -99 }; }
	ints r = { (long long)j }; for (auto c : d) r.push_back(of(c));
	return r;
}
static void go(const vf::scenario_t& s)
{
	for (auto& o : s.ops) {
		auto a = o.a; auto& op = o.name; ints r; const char* e = op.c_str();
		if (op == "dec") r = a[0] ? a[1] ? dec<wchar_t, wchar_t>(a) : dec<wchar_t, char>(a) : a[1] ? dec<char16_t, char16_t>(a) : dec<char16_t, char>(a);
		else if (op == "err") r = a[0] == 0 ? err<char>(a) : a[0] == 1 ? err<char16_t>(a) : err<wchar_t>(a);
		else if (op == "enc") { r = a[0] ? enc<wchar_t>(a) : enc<char16_t>(a); e = "enced"; }
		event(e, a, r);
	}
}
int main(int c, char** v) { return vf::run(c, v, go); }
