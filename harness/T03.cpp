// Escaping driver: see Escape.tla for arguments. Forms: 0 pointer and limit, 1 array, 2 string, 3 character by character
#include <stdex/html.hpp>
#include "common.hpp"
using vf::ints; using vf::event; using std::basic_string; namespace h = stdex::html;
static size_t L(long long n) { return n < 0 ? SIZE_MAX : (size_t)n; }
template <class T> static long long of(T c) { return sizeof(T) == 1 ? (long long)(uint8_t)c : (long long)c; }
template <class T> struct mem { std::unique_ptr<T[]> p; size_t n; mem(const ints& a, size_t i, size_t e) : n(e - i) { p.reset(new T[n]); for (size_t k = 0; k < n; ++k) p[k] = (T)a[i + k]; } };
template <class T> struct arr { T a[8]; arr(const T* s, size_t n) { for (size_t i = 0; i < 8; ++i) a[i] = i < n ? s[i] : T(); } };
template <class T> static void esc1(int k, int f, basic_string<T>& d, const T* s, size_t n, size_t lim)
{
	size_t m = lim < n ? lim : n; std::unique_ptr<arr<T>> A(new arr<T>(s, m)); basic_string<T> str(s, m);
	if (f == 1 && m > 8) f = 0;
	if (k == 0) { if (f == 0) h::escape(d, s, lim); else if (f == 1) h::escape(d, A->a); else h::escape(d, str); }
	else if (k == 1) { if (f == 0) h::escape_min(d, s, lim); else if (f == 1) h::escape_min(d, A->a); else if (f == 2) h::escape_min(d, str); else for (size_t i = 0; i < m && s[i]; ++i) h::escape_min(d, s[i]); }
	else if (k == 2) { if constexpr (sizeof(T) == 1) { if (f == 0) h::url_escape(d, s, lim); else if (f == 1) h::url_escape(d, A->a); else h::url_escape(d, std::string_view(s, m)); } }
	else { if (f == 0) h::css_escape(d, s, lim); else if (f == 1) h::css_escape(d, A->a); else h::css_escape(d, str); }
}
template <class T> static void unesc1(int k, int f, basic_string<T>& d, const T* s, size_t n, size_t lim)
{
	size_t m = lim < n ? lim : n; std::unique_ptr<arr<T>> A(new arr<T>(s, m)); mem<T> c(ints(s, s + m), 0, m);
	if (f == 1 && m > 8) f = 0;
	if (k == 2) { if constexpr (sizeof(T) == 1) { if (f == 0) h::url_unescape(d, s, lim); else if (f == 1) h::url_unescape(d, A->a); else h::url_unescape(d, std::string_view(c.p.get(), m)); } }
	else { if (f == 0) h::css_unescape(d, s, lim); else if (f == 1) h::css_unescape(d, A->a); else h::css_unescape(d, basic_string<T>(s, m)); }
}
template <class T> static ints esc(ints& a)
{
	size_t p = 4 + a[3], n = (size_t)a[p + 1]; mem<T> m(a, p + 2, p + 2 + n); basic_string<T> d; for (size_t i = 4; i < p; ++i) d += (T)a[i];
	auto pre = d; esc1<T>((int)a[0], (int)a[2], d, m.p.get(), n, L(a[p]));
	bool kept = d.compare(0, pre.size(), pre) == 0; ints r = { kept };
	if (kept) d.erase(0, pre.size());
	for (auto c : d) a.push_back(of(c));
	if (a[0] < 2) {
		bool plain = true; for (auto c : d) if (of(c) > 127) plain = false;
		if (sizeof(T) > 1 || plain) { auto w = stdex::sgml2str<wchar_t>(d.data(), d.size()); for (auto c : w) r.push_back(of(c)); }
		else { size_t lim = L(a[p]); for (size_t i = 0; i < n && i < lim && m.p[i]; ++i) r.push_back(of(m.p[i])); }
	}
	else { basic_string<T> u; std::unique_ptr<T[]> q(new T[d.size()]); std::copy(d.begin(), d.end(), q.get()); unesc1<T>((int)a[0], 0, u, q.get(), d.size(), d.size()); for (auto c : u) r.push_back(of(c)); }
	return r;
}
template <class T> static ints unesc(const ints& a)
{
	size_t p = 4 + a[3]; mem<T> m(a, p + 1, a.size()); basic_string<T> d; for (size_t i = 4; i < p; ++i) d += (T)a[i];
	unesc1<T>((int)a[0], (int)a[2], d, m.p.get(), m.n, L(a[p]));
	ints r; for (auto c : d) r.push_back(of(c));
	return r;
}
static void go(const vf::scenario_t& s)
{
	for (auto& o : s.ops) {
		auto a = o.a; auto& op = o.name; ints r; const char* e = op.c_str();
		if (op == "unesc") r = a[1] ? unesc<wchar_t>(a) : unesc<char>(a);
		else if (op == "esc") { r = a[1] ? esc<wchar_t>(a) : esc<char>(a); e = "escd"; }
		event(e, a, r);
	}
}
int main(int c, char** v) { return vf::run(c, v, go, 3); }
