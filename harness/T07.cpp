// Strings driver. start type unit.. ; the buffer's units
#include <stdex/string.hpp>
#include <string>
#include <memory>
#include "common.hpp"
using stdex::locale_C; using vf::ints; using vf::event;
static const std::locale& loc(long long n)
{
	static std::locale c = std::locale::classic(), s = [] { try { return std::locale("sl_SI.utf8"); } catch (...) { return std::locale("C.utf8"); } }();
	return n == 2 ? s : c;
}
static size_t L(long long n) { return n < 0 ? SIZE_MAX : (size_t)n; }
template <class T> static long long of(T c) { return sizeof(T) == 1 ? (long long)(uint8_t)c : sizeof(T) == 2 ? (long long)(uint16_t)c : (long long)c; }
static long long sz(size_t n) { return n == stdex::npos ? -1 : n > 100000000 ? 99999999 : (long long)n; }
static int sign(int n) { return n < 0 ? -1 : n > 0; }
// units at the very end of a heap block
template <class T> struct mem {
	std::unique_ptr<T[]> p; size_t n;
	mem(const ints& a, size_t i) : n(a.size() - i) { p.reset(new T[n]); for (size_t j = 0; j < n; ++j) p[j] = (T)a[i + j]; }
	operator T*() { return p.get(); }
};
template <class F> static void as(long long t, const ints& a, size_t i, F f) { if (t == 0) { mem<char> m(a, i); f(m); } else if (t == 1) { mem<char16_t> m(a, i); f(m); } else { mem<wchar_t> m(a, i); f(m); } }
template <class T> struct rec { static const size_t none = 0; };
template <class T> static void runs(ints& r, const std::basic_string<T>& s) { for (auto c : s) { if (r.size() > 1 && r[r.size() - 2] == of(c)) r.back()++; else { r.push_back(of(c)); r.push_back(1); } } }
template <class T> static std::basic_string<T> lit(const char* s) { std::basic_string<T> r; while (*s) r += (T)*s++; return r; }
template <class T, class U> static int num(const mem<T>& m, long long lim, int radix, bool arr, ints& r)
{
	size_t e = 12345; U v;
	if constexpr (std::is_signed<U>::value) {
		if (arr) { T x[5]; std::copy(m.p.get(), m.p.get() + 5, x); v = sizeof(U) == 1 ? (U)stdex::strto8(x, &e, radix) : sizeof(U) == 2 ? (U)stdex::strto16(x, &e, radix) : sizeof(U) == 4 ? (U)stdex::strto32(x, &e, radix) : (U)stdex::strto64(x, &e, radix);
			if (size_t f = 54321; sizeof(U) == 8 && (v != (U)stdex::strtoi(x, &f, radix) || e != f || v != (U)stdex::strtoi(x, nullptr, radix))) e = 99999; }
		else if (lim == -2 && sizeof(U) == 8) v = (U)stdex::strtoi((const T*)m.p.get(), L(lim), &e, radix);
		else v = sizeof(U) == 1 ? (U)stdex::strto8((const T*)m.p.get(), L(lim), &e, radix) : sizeof(U) == 2 ? (U)stdex::strto16((const T*)m.p.get(), L(lim), &e, radix) : sizeof(U) == 4 ? (U)stdex::strto32((const T*)m.p.get(), L(lim), &e, radix) : (U)stdex::strto64((const T*)m.p.get(), L(lim), &e, radix);
	} else {
		if (arr) { T x[5]; std::copy(m.p.get(), m.p.get() + 5, x); v = sizeof(U) == 1 ? (U)stdex::strtou8(x, &e, radix) : sizeof(U) == 2 ? (U)stdex::strtou16(x, &e, radix) : sizeof(U) == 4 ? (U)stdex::strtou32(x, &e, radix) : (U)stdex::strtou64(x, &e, radix);
			if (size_t f = 54321; sizeof(U) == 8 && (v != (U)stdex::strtoui(x, &f, radix) || e != f || v != (U)stdex::strtoui(x, nullptr, radix))) e = 99999; }
		else if (lim == -2 && sizeof(U) == 8) v = (U)stdex::strtoui((const T*)m.p.get(), L(lim), &e, radix);
		else v = sizeof(U) == 1 ? (U)stdex::strtou8((const T*)m.p.get(), L(lim), &e, radix) : sizeof(U) == 2 ? (U)stdex::strtou16((const T*)m.p.get(), L(lim), &e, radix) : sizeof(U) == 4 ? (U)stdex::strtou32((const T*)m.p.get(), L(lim), &e, radix) : (U)stdex::strtou64((const T*)m.p.get(), L(lim), &e, radix);
	}
	r = { sz(e) }; for (size_t i = 0; i < sizeof(U); ++i) r.push_back((uint64_t)v >> 8 * i & 255);
	return 0;
}
template <class T> static void fmt(const ints& a, ints& r)
{
	std::basic_string<T> arg((size_t)a[3], (T)a[2]), s((size_t)(a[0] ? 3 : a[4]), (T)'p');
	auto f = lit<T>(sizeof(T) == 1 ? "<%s%d>" : "<%ls%d>"); size_t n; errno = (int)a[6];
	if (a[0] == 0) n = stdex::appendf(s, f.c_str(), locale_C, arg.c_str(), (int)a[1]);
	else if (a[0] == 1) { stdex::sprintf(s, f.c_str(), locale_C, arg.c_str(), (int)a[1]); n = s.size(); }
	else { s = stdex::sprintf(f.c_str(), locale_C, arg.c_str(), (int)a[1]); n = s.size(); }
	r = { sz(n) }; runs(r, s);
}
template <class T> static void tim(const ints& a, ints& r)
{
	struct tm t{}; t.tm_year = (int)a[5] - 1900; t.tm_mon = (int)a[6] - 1; t.tm_mday = (int)a[7]; t.tm_hour = (int)a[8]; t.tm_min = (int)a[9]; t.tm_sec = (int)a[10];
	std::basic_string<T> s((size_t)(a[0] ? 3 : a[1]), (T)'p'), f((size_t)a[3], (T)a[2]);
	f += lit<T>(a[4] == 0 ? "" : a[4] == 1 ? "%Y-%m-%d" : "%H:%M:%S");
	if (a[0] == 0) stdex::strcatftime(s, f.c_str(), &t, locale_C); else if (a[0] == 1) stdex::strftime(s, f.c_str(), &t, locale_C); else s = stdex::strftime(f.c_str(), &t, locale_C);
	runs(r, s);
}
template <class T> static const int has_locale = !std::is_same<T, char16_t>::value;
template <class T, class M> static long long cmp(T* b, size_t n, const ints& a, M& y, bool arr)
{
	using U = typename std::remove_reference<decltype(y[0])>::type; const T* x = b; const U* z = y; auto& l = loc(a[2]);
	constexpr bool lc = has_locale<T> && has_locale<U>;
	auto l1 = a[1], l2 = a[4]; auto m = a[0];
	if (m > 3) { size_t c = L(l1); if (m == 4) return stdex::strncmp(x, z, c); if (m == 5) return stdex::strrncmp(x, z, c); if constexpr (lc) if (a[2]) return stdex::strnicmp(x, z, c, l); return stdex::strnicmp(x, z, c); }
	if (m == 3) {
		if constexpr (std::is_same<T, U>::value && lc) {
			if (l1 == -1) return stdex::strcoll(x, z, l);
			if (arr) { T c[5]; U d[3]; std::copy(x, x + 5, c); std::copy(z, z + 3, d); return stdex::strncoll(c, d, l); }
			return stdex::strncoll(x, L(l1), z, L(l2), l);
		}
		return -7;
	}
	if (arr) {
		T c[5]; U d[3]; std::copy(x, x + 5, c); std::copy(z, z + 3, d);
		if (m == 0) return stdex::strncmp(c, d); if (m == 1) return stdex::strrncmp(c, d);
		if constexpr (lc) if (a[2]) return stdex::strnicmp(c, d, l); return stdex::strnicmp(c, d);
	}
	if (l1 == -1) { if (m == 0) return stdex::strcmp(x, z); if (m == 1) return stdex::strrcmp(x, z); if constexpr (lc) if (a[2]) return stdex::stricmp(x, z, l); return stdex::stricmp(x, z); }
	if (m == 0) return stdex::strncmp(x, L(l1), z, L(l2)); if (m == 1) return stdex::strrncmp(x, L(l1), z, L(l2));
	if constexpr (lc) if (a[2]) return stdex::strnicmp(x, L(l1), z, L(l2), l); return stdex::strnicmp(x, L(l1), z, L(l2));
}
template <class T> static size_t chr(const T* b, const ints& a, bool arr)
{
	T c = (T)a[3]; auto k = a[0]; auto l1 = a[1]; auto& l = loc(a[2]); T x[5]; if (arr) std::copy(b, b + 5, x);
	if (k < 2) { if (arr) return k ? stdex::strrnchr(x, c) : stdex::strnchr(x, c); if (l1 == -1) return k ? stdex::strrchr(b, c) : stdex::strchr(b, c); return k ? stdex::strrnchr(b, L(l1), c) : stdex::strnchr(b, L(l1), c); }
	k -= 2;
	if constexpr (has_locale<T>) if (a[2]) { if (arr) return k ? stdex::strrnichr(x, c, l) : stdex::strnichr(x, c, l); if (l1 == -1) return k ? stdex::strrichr(b, c, l) : stdex::strichr(b, c, l); return k ? stdex::strrnichr(b, L(l1), c, l) : stdex::strnichr(b, L(l1), c, l); }
	if (arr) return k ? stdex::strrnichr(x, c) : stdex::strnichr(x, c); if (l1 == -1) return k ? stdex::strrichr(b, c) : stdex::strichr(b, c); return k ? stdex::strrnichr(b, L(l1), c) : stdex::strnichr(b, L(l1), c);
}
template <class T, class M> static size_t str(const T* b, const ints& a, M& y, bool arr)
{
	using U = typename std::remove_reference<decltype(y[0])>::type; auto l1 = a[1]; auto& l = loc(a[2]); T x[5]; if (arr) std::copy(b, b + 5, x); const U* z = y;
	if (!a[0]) { if (arr) return stdex::strnstr(x, z); if (l1 == -1) return stdex::strstr(b, z); return stdex::strnstr(b, L(l1), z); }
	if constexpr (has_locale<T> && has_locale<U>) if (a[2]) { if (arr) return stdex::strnistr(x, z, l); if (l1 == -1) return stdex::stristr(b, z, l); return stdex::strnistr(b, L(l1), z, l); }
	if (arr) return stdex::strnistr(x, z); if (l1 == -1) return stdex::stristr(b, z); return stdex::strnistr(b, L(l1), z);
}
template <class T> static void text(const ints& a, ints& r)
{
	std::basic_string<T> s; for (size_t i = 2; i < a.size(); ++i) s += (T)a[i];
	auto& l = loc(a[1]); auto k = a[0]; bool d = false;
	if constexpr (has_locale<T>) if (a[1]) { d = true; if (k == 0) stdex::ltrim(s, l); else if (k == 1) stdex::rtrim(s, l); else if (k == 2) stdex::trim(s, l); else if (k == 3) stdex::strlwr(s, l); else if (k == 4) stdex::strupr(s, l); else d = false; }
	if (!d) {
		if (k == 0) stdex::ltrim(s); else if (k == 1) stdex::rtrim(s); else if (k == 2) stdex::trim(s); else if (k == 3) stdex::strlwr(s); else if (k == 4) stdex::strupr(s); else if (k == 5) stdex::crlf2nl(s);
		else if (k == 6) { mem<T> src(a, 2); std::basic_string<T> o(2, (T)'z'); stdex::crlf2nl(o, (const T*)src); s = o; }
		else { mem<T> src(a, 2); size_t n = stdex::strlen((const T*)src) + 1; ints w(n, 90); mem<T> o(w, 0); size_t m = stdex::crlf2nl((T*)o, (const T*)src); s.assign(o.p.get(), m); if (o[m]) s += (T)7; }
	}
	for (auto c : s) r.push_back(of(c));
}
template <class T> static void go(const vf::scenario_t& s)
{
	std::unique_ptr<mem<T>> bp; size_t n = 0;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") { bp.reset(new mem<T>(a, 1)); n = bp->n; event("start", a, {}); continue; }
		T* b = *bp; bool edit = false; size_t lim = 0; size_t ret = 0;
		auto arr1 = [&](long long l) { return n == 5 && l == 5; };
		try {
		if (op == "cpy") { as(a[0], a, 2, [&](auto& m) { auto z = (typename std::remove_reference<decltype(m[0])>::type*)m; lim = 0; ret = stdex::strcpy(b, (const typename std::remove_reference<decltype(m[0])>::type*)z); lim = ret + 1; }); edit = true; }
		else if (op == "ncpy") { as(a[1], a, 3, [&](auto& m) { using U = typename std::remove_reference<decltype(m[0])>::type; const U* z = m; lim = L(a[0]);
			if (arr1(a[0]) && m.n == 3 && a[2] == 3) { T c[5]; U d[3]; std::copy(b, b + 5, c); std::copy(z, z + 3, d); ret = stdex::strncpy(c, d); std::copy(c, c + 5, b); }
			else ret = stdex::strncpy(b, lim, z, L(a[2])); }); edit = true; }
		else if (op == "ncpy1") { as(a[0], a, 2, [&](auto& m) { using U = typename std::remove_reference<decltype(m[0])>::type; const U* z = m; lim = L(a[1]); ret = stdex::strncpy(b, z, lim); }); edit = true; }
		else if (op == "cat") { as(a[0], a, 2, [&](auto& m) { using U = typename std::remove_reference<decltype(m[0])>::type; const U* z = m; ret = stdex::strcat(b, z); lim = ret + 1; }); edit = true; }
		else if (op == "ncat") { as(a[1], a, 3, [&](auto& m) { using U = typename std::remove_reference<decltype(m[0])>::type; const U* z = m; lim = L(a[0]); ret = stdex::strncat(b, lim, z, L(a[2])); }); edit = true; }
		else if (op == "ncat1") { as(a[0], a, 2, [&](auto& m) { using U = typename std::remove_reference<decltype(m[0])>::type; const U* z = m; ret = stdex::strncat(b, z, L(a[1])); lim = ret + 1; }); edit = true; }
		else if (op == "case") {
			size_t e = a[1] < 0 ? stdex::strlen(b) + 1 : (size_t)a[1]; bool d = false;
			if (arr1(a[1])) { T c[5]; std::copy(b, b + 5, c);
				if constexpr (has_locale<T>) if (a[2]) { d = true; if (a[0]) stdex::strupr(c, loc(a[2])); else stdex::strlwr(c, loc(a[2])); }
				if (!d) { if (a[0]) stdex::strupr(c); else stdex::strlwr(c); } std::copy(c, c + 5, b); }
			else { if constexpr (has_locale<T>) if (a[2]) { d = true; if (a[0]) stdex::strupr(b, L(a[1]), loc(a[2])); else stdex::strlwr(b, L(a[1]), loc(a[2])); }
				if (!d) { if (a[0]) stdex::strupr(b, L(a[1])); else stdex::strlwr(b, L(a[1])); } }
			for (size_t i = stdex::strnlen(b, e) + 1; i < e; ++i) b[i] = (T)126;
			for (size_t i = 0; i < n; ++i) r.push_back(of(b[i]));
		}
		else if (op == "trim") { lim = a[1] < 0 ? stdex::strlen(b) + 1 : (size_t)a[1]; bool d = false; auto& l = loc(a[2]);
			if constexpr (has_locale<T>) if (a[2]) { d = true; ret = a[0] == 0 ? stdex::ltrim(b, L(a[1]), l) : a[0] == 1 ? stdex::rtrim(b, L(a[1]), l) : stdex::trim(b, L(a[1]), l); }
			if (!d) ret = a[0] == 0 ? stdex::ltrim(b, L(a[1])) : a[0] == 1 ? stdex::rtrim(b, L(a[1])) : stdex::trim(b, L(a[1])); edit = true; }
		else if (op == "dup") { T* d; if (a[0] == -1) d = stdex::strdup((const T*)b); else if (arr1(a[0])) { T c[5]; std::copy(b, b + 5, c); d = stdex::strndup(c); } else d = stdex::strndup((const T*)b, (size_t)a[0]);
			for (size_t i = 0; d[i]; ++i) r.push_back(of(d[i])); delete[] d; }
		else if (op == "len") { T c[5]; if (arr1(a[0])) std::copy(b, b + 5, c); r = { sz(a[0] == -1 ? stdex::strlen((const T*)b) : arr1(a[0]) ? stdex::strnlen(c) : stdex::strnlen((const T*)b, L(a[0]))) }; }
		else if (op == "chr") r = { sz(chr<T>(b, a, arr1(a[1]))) };
		else if (op == "is") { T c[5]; bool ar = arr1(a[1]); if (ar) std::copy(b, b + 5, c); const T* x = b; bool v, d = false;
			if (a[0]) v = ar ? stdex::is7bit(c) : stdex::is7bit(x, L(a[1]));
			else { if constexpr (has_locale<T>) if (a[2]) { d = true; v = ar ? stdex::isblank(c, loc(a[2])) : stdex::isblank(x, L(a[1]), loc(a[2])); } if (!d) v = ar ? stdex::isblank(c) : stdex::isblank(x, L(a[1])); }
			r = { v }; }
		else if (op == "cmp") as(a[3], a, 5, [&](auto& m) { r = { sign((int)cmp<T>(b, n, a, m, arr1(a[1]) && m.n == 3 && a[4] == 3)) }; });
		else if (op == "str") as(a[3], a, 5, [&](auto& m) { r = { sz(str<T>(b, a, m, arr1(a[1]))) }; });
		else if (op == "glyph") { if constexpr (sizeof(T) > 1) r = { sz(stdex::glyphlen(a.empty() || a[0] ? b : nullptr, a.empty() ? n : (size_t)a[0])) }; }
		else if (op == "rglyph") { if constexpr (sizeof(T) > 1) r = { sz(stdex::glyphrlen(b, n)) }; }
		else if (op == "pair") { stdex::utf16_t p[3] = { 7, 7, 7 }; stdex::ucs4_to_surrogate_pair(p, (stdex::utf32_t)a[0]); r = { p[0], p[1], p[2], (long long)stdex::surrogate_pair_to_ucs4(p), stdex::is_surrogate_pair(p), stdex::is_high_surrogate(p[0]), stdex::is_low_surrogate(p[1]) }; }
		else if (op == "unit") { auto c = (stdex::utf16_t)a[0]; r = { stdex::is_high_surrogate(c), stdex::is_low_surrogate(c) }; }
		else if (op == "lbreak") r = { sz(stdex::islbreak((const T*)b, n)) };
		else if (op == "text") text<T>(a, r);
		else if (op == "int") as(a[3], a, 5, [&](auto& m) { using U = typename std::remove_reference<decltype(m[0])>::type; bool ar = m.n == 5 && a[4] == 5; int rx = (int)a[2];
			if (a[1]) a[0] == 1 ? num<U, int8_t>(m, a[4], rx, ar, r) : a[0] == 2 ? num<U, int16_t>(m, a[4], rx, ar, r) : a[0] == 4 ? num<U, int32_t>(m, a[4], rx, ar, r) : num<U, int64_t>(m, a[4], rx, ar, r);
			else a[0] == 1 ? num<U, uint8_t>(m, a[4], rx, ar, r) : a[0] == 2 ? num<U, uint16_t>(m, a[4], rx, ar, r) : a[0] == 4 ? num<U, uint32_t>(m, a[4], rx, ar, r) : num<U, uint64_t>(m, a[4], rx, ar, r); });
		else if (op == "real") as(a[0], a, 2, [&](auto& m) { using U = typename std::remove_reference<decltype(m[0])>::type; if constexpr (!std::is_same<U, char16_t>::value) { size_t e = 0; double d = stdex::strtod((const U*)m, L(a[1]), &e, locale_C); r = { sz(e), (long long)(d * 4) }; } });
		else if (op == "fmt") { if (a[5]) fmt<wchar_t>(a, r); else fmt<char>(a, r); }
		else if (op == "time") { if (a[11]) tim<wchar_t>(a, r); else tim<char>(a, r); }
		} catch (std::exception& e) { if (getenv("DBG")) fprintf(stderr, "%s: %s\n", op.c_str(), e.what()); r = { -99 }; edit = false; }
		if (edit) {
			if (lim > n) r = { -98, sz(ret), sz(lim) };
			else { for (size_t i = stdex::strnlen(b, lim) + 1; i < lim; ++i) b[i] = (T)126; r = { sz(ret) }; for (size_t i = 0; i < n; ++i) r.push_back(of(b[i])); }
		}
		event(op.c_str(), a, r);
	}
}
static void scenario(const vf::scenario_t& s) { auto t = s.ops[0].a[0]; if (t == 0) go<char>(s); else if (t == 1) go<char16_t>(s); else go<wchar_t>(s); }
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
