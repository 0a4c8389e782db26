// Parser combinators driver: see Parser.tla.
//   start [class, k]           class 0 char, 1 wchar_t, 2 char with SGML entities; the first k nodes are not reported
//   node [kind, parameters...]; nodes [for each: number of its integers, kind, parameters...]
//   text [code units...]       exactly those, on the heap
//   match [id, start, end (-1: none), flags, form (0 pointer, 1 string_view)], search [the same]
//   drop [id]                  invalidate()
#include <stdex/parser.hpp>
#include <cmath>
#include "common.hpp"
using vf::ints; using vf::event; using std::shared_ptr; using std::make_shared;
namespace P = stdex::parser;
enum { NOOP, ANY, CU, SPACE, PUNCT, SPUNCT, BOL, EOL, SET, STR, ITER, SEQ, BRANCH, STRS, PERM, INT10, INT10TS, INT16, ROMAN, FRACTION, SCORE, SIGNED, MIXED, SCI, MONEY, IPV4,
	DNSCHAR = 30, USERCHAR, PASSCHAR, PATHCHAR, SCOPECHAR, IPV6, DNS, URLPATH, URL, EMAIL, EMOTICON, DATE, TIME, ANGLE, PHONE, IBAN, CREDITOR, SIREF, FORMULA };
template <class T, bool G> struct grammar {
	using B = P::basic_parser<T>; using ref = shared_ptr<B>; using str_t = std::basic_string<T>;
	struct node { int kind; ref p; };
	std::vector<node> n; std::unique_ptr<T[]> u; size_t len = 0;
	ref at(long long i) { return i < 0 ? ref() : n[(size_t)i].p; }
	template <class X> shared_ptr<X> as(long long i) { return i < 0 ? shared_ptr<X>() : std::dynamic_pointer_cast<X>(n[(size_t)i].p); }
	std::vector<ref> all(const ints& a) { std::vector<ref> v; for (size_t i = 1; i < a.size(); ++i) v.push_back(at(a[i])); return v; }
	template <class X> ref coll(const ints& a) { auto v = all(a); if (n.size() % 2) return make_shared<X>(v.data(), v.size()); return make_shared<X>(std::move(v)); }
	void add(const ints& a)
	{
		int k = (int)a[0]; ref r; bool inv = a.size() > 1 && a[1] == 1;
		auto s = [&](size_t from) { str_t t; for (size_t i = from; i < a.size(); ++i) t += (T)a[i]; return t; };
		// the characters without a terminator, limited by their number
		auto S = [&](size_t from) { std::vector<T> v; for (size_t i = from; i < a.size(); ++i) v.push_back((T)a[i]); v.shrink_to_fit(); return v; };
		switch (k) {
		case NOOP: r = make_shared<P::basic_noop<T>>(); break;
		case ANY: if constexpr (G) r = make_shared<P::sgml_any_cp>(); else r = make_shared<P::basic_any_cu<T>>(); break;
		case CU: if constexpr (G) { auto v = S(2); if (n.size() % 2) r = make_shared<P::sgml_cp>(v.data(), v.size(), inv); else r = make_shared<P::sgml_cp>(s(2).c_str(), SIZE_MAX, inv); }
			else r = make_shared<P::basic_cu<T>>((T)a[2], inv); break;
		case SPACE: if constexpr (G) r = make_shared<P::sgml_space_cp>(inv); else r = make_shared<P::basic_space_cu<T>>(inv); break;
		case PUNCT: if constexpr (G) r = make_shared<P::sgml_punct_cp>(inv); else r = make_shared<P::basic_punct_cu<T>>(inv); break;
		case SPUNCT: if constexpr (G) r = make_shared<P::sgml_space_or_punct_cp>(inv); else r = make_shared<P::basic_space_or_punct_cu<T>>(inv); break;
		case BOL: r = make_shared<P::basic_bol<T>>(inv); break;
		case EOL: r = make_shared<P::basic_eol<T>>(inv); break;
		case SET: if (n.size() % 2) { auto v = S(2); if constexpr (G) r = make_shared<P::sgml_cp_set>(v.data(), v.size(), inv); else r = make_shared<P::basic_cu_set<T>>(v.data(), v.size(), inv); }
			else { auto v = s(2); if constexpr (G) r = make_shared<P::sgml_cp_set>(v.c_str(), SIZE_MAX, inv); else r = make_shared<P::basic_cu_set<T>>(v.c_str(), SIZE_MAX, inv); } break;
		case STR: if (n.size() % 2) { auto v = S(1); if constexpr (G) r = make_shared<P::sgml_string>(v.data(), v.size()); else r = make_shared<P::basic_string<T>>(v.data(), v.size()); }
			else { auto v = s(1); if constexpr (G) r = make_shared<P::sgml_string>(v.c_str()); else r = make_shared<P::basic_string<T>>(v.c_str()); } break;
		case STRS: { auto v = S(1); if constexpr (G) r = make_shared<P::sgml_string_branch>(v.data(), v.size()); else r = make_shared<P::basic_string_branch<T>>(v.data(), v.size()); } break;
		case ITER: r = make_shared<P::basic_iterations<T>>(at(a[1]), (size_t)a[2], a[3] < 0 ? SIZE_MAX : (size_t)a[3], a[4] != 0); break;
		case SEQ: r = coll<P::basic_sequence<T>>(a); break;
		case BRANCH: r = coll<P::basic_branch<T>>(a); break;
		case PERM: r = coll<P::basic_permutation<T>>(a); break;
		case INT10: r = make_shared<P::basic_integer10<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7]), at(a[8]), at(a[9]), at(a[10])); break;
		case INT10TS: r = make_shared<P::basic_integer10ts<T>>(as<P::basic_integer10<T>>(a[1]), as<P::basic_set<T>>(a[2])); break;
		case INT16: r = make_shared<P::basic_integer16<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7]), at(a[8]), at(a[9]), at(a[10]), at(a[11]), at(a[12]), at(a[13]), at(a[14]), at(a[15]), at(a[16])); break;
		case ROMAN: r = make_shared<P::basic_roman_numeral<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7]), at(a[8]), at(a[9])); break;
		case FRACTION: r = make_shared<P::basic_fraction<T>>(at(a[1]), at(a[2]), at(a[3])); break;
		case SCORE: r = make_shared<P::basic_score<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4])); break;
		case SIGNED: r = make_shared<P::basic_signed_numeral<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4])); break;
		case MIXED: r = make_shared<P::basic_mixed_numeral<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6])); break;
		case SCI: { using I = P::basic_integer<T>; r = make_shared<P::basic_scientific_numeral<T>>(at(a[1]), at(a[2]), at(a[3]), as<I>(a[4]), at(a[5]), as<I>(a[6]), at(a[7]), at(a[8]), at(a[9]), as<I>(a[10])); } break;
		case MONEY: r = make_shared<P::basic_monetary_numeral<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7])); break;
		case IPV4: r = make_shared<P::basic_ipv4_address<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7]), at(a[8]), at(a[9]), at(a[10]), at(a[11])); break;
		case DNSCHAR: if constexpr (G) r = make_shared<P::sgml_dns_domain_char>(inv); else r = make_shared<P::basic_dns_domain_char<T>>(inv); break;
		case USERCHAR: if constexpr (G) r = make_shared<P::sgml_url_username_char>(); else r = make_shared<P::basic_url_username_char<T>>(); break;
		case PASSCHAR: if constexpr (G) r = make_shared<P::sgml_url_password_char>(); else r = make_shared<P::basic_url_password_char<T>>(); break;
		case PATHCHAR: if constexpr (G) r = make_shared<P::sgml_url_path_char>(); else r = make_shared<P::basic_url_path_char<T>>(); break;
		case SCOPECHAR: if constexpr (G) r = make_shared<P::sgml_ipv6_scope_id_char>(); else r = make_shared<P::basic_ipv6_scope_id_char<T>>(); break;
		case IPV6: r = make_shared<P::basic_ipv6_address<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7]), at(a[8]), at(a[9]), at(a[10]), at(a[11]), at(a[12]), at(a[13]), at(a[14]), at(a[15]), at(a[16]), at(a[17]), at(a[18]), at(a[19])); break;
		case DNS: r = make_shared<P::basic_dns_name<T>>(a[1] != 0, as<P::basic_dns_domain_char<T>>(a[2]), at(a[3])); break;
		case URLPATH: r = make_shared<P::basic_url_path<T>>(at(a[1]), at(a[2]), at(a[3])); break;
		case URL: r = make_shared<P::basic_url<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7]), at(a[8]), at(a[9]), at(a[10]), at(a[11]), at(a[12]), at(a[13]), at(a[14]), at(a[15]), at(a[16])); break;
		case EMAIL: r = make_shared<P::basic_email_address<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), at(a[5]), at(a[6]), at(a[7])); break;
		case EMOTICON: r = make_shared<P::basic_emoticon<T>>(at(a[1]), at(a[2]), at(a[3]), at(a[4]), as<P::basic_set<T>>(a[5])); break;
		case DATE: { using I = P::basic_integer<T>; r = make_shared<P::basic_date<T>>((int)a[1], as<I>(a[2]), as<I>(a[3]), as<I>(a[4]), as<P::basic_set<T>>(a[5]), at(a[6])); } break;
		case TIME: { using I = P::basic_integer10<T>; r = make_shared<P::basic_time<T>>(as<I>(a[1]), as<I>(a[2]), as<I>(a[3]), as<I>(a[4]), as<P::basic_set<T>>(a[5]), at(a[6])); } break;
		case ANGLE: { using I = P::basic_integer10<T>; r = make_shared<P::basic_angle<T>>(as<I>(a[1]), at(a[2]), as<I>(a[3]), at(a[4]), as<I>(a[5]), at(a[6]), at(a[7])); } break;
		case PHONE: { using X = P::basic_set<T>; r = make_shared<P::basic_phone_number<T>>(at(a[1]), at(a[2]), as<X>(a[3]), as<X>(a[4]), at(a[5]), at(a[6])); } break;
		case IBAN: r = make_shared<P::basic_iban<T>>(at(a[1])); break;
		case CREDITOR: r = make_shared<P::basic_creditor_reference<T>>(at(a[1])); break;
		case SIREF: r = make_shared<P::basic_si_reference<T>>(at(a[1])); break;
		case FORMULA: r = make_shared<P::basic_chemical_formula<T>>(at(a[1]), at(a[2]), at(a[3])); break;
		default: abort();
		}
		n.push_back({ k, r });
	}
	static long long digest(const str_t& v) { long long h = 7; for (T c : v) h = (h * 31 + (long long)(std::make_unsigned_t<T>)c) % 65521; return h; }
	static void part(ints& o, size_t i, int k, const stdex::interval<size_t>& v, long long x = -7, long long y = -7)
	{
		ints e = { (long long)i + 1000 * k, (bool)v, v ? (long long)v.start : 0, v ? (long long)v.end : 0, x, y };
		o.insert(o.end(), e.begin(), e.end());
	}
	void see(size_t from, ints& o, size_t bare = SIZE_MAX)   // bare: the fields of this one as they are
	{
		for (size_t i = from; i < n.size(); ++i) {
			auto& p = *n[i].p; long long x = -7, y = -7; bool ok = (bool)p.interval;
			auto num = [](size_t v) { return v > 2000000000 ? 2000000000ll : (long long)v; };
			if (ok || i == bare) switch (n[i].kind) {
			case SET: x = (long long)dynamic_cast<P::basic_set<T>&>(p).hit_offset; break;
			case BRANCH: case STRS: x = (long long)dynamic_cast<P::basic_branch<T>&>(p).hit_offset; break;
			case INT10: case INT16: case ROMAN: x = num(dynamic_cast<P::basic_integer<T>&>(p).value); break;
			case INT10TS: { auto& q = dynamic_cast<P::basic_integer10ts<T>&>(p); x = num(q.value); y = 2 * (long long)q.digit_count + q.has_separators; } break;
			case SCI: { double v = dynamic_cast<P::basic_scientific_numeral<T>&>(p).value * 1e6; x = !(std::fabs(v) < 2.1e9) ? 2100000000 : std::llround(v); if (x < 2100000000 && std::fabs(v - (double)x) > 1e-3) x = 2100000001; } break;
			case DATE: x = dynamic_cast<P::basic_date<T>&>(p).format; break;
			case PHONE: { auto& v = dynamic_cast<P::basic_phone_number<T>&>(p).value; x = (long long)v.size(); y = digest(v); } break;
			case FORMULA: { auto& q = dynamic_cast<P::basic_chemical_formula<T>&>(p); x = q.has_digits; y = q.has_charge; } break;
			case IPV4: { auto v = ntohl(dynamic_cast<P::basic_ipv4_address<T>&>(p).value.s_addr); x = v >> 16; y = v & 0xffff; } break;
			}
			if (ok || i == bare) switch (n[i].kind) {
			case IPV6: { auto& q = dynamic_cast<P::basic_ipv6_address<T>&>(p); for (int k = 0; k < 8; ++k) part(o, i, k + 1, q.components[k], q.value.s6_addr[2 * k] << 8 | q.value.s6_addr[2 * k + 1]); } break;
			case URLPATH: { auto& q = dynamic_cast<P::basic_url_path<T>&>(p); part(o, i, 1, q.path); part(o, i, 2, q.query); part(o, i, 3, q.bookmark); } break;
			case IBAN: { auto& q = dynamic_cast<P::basic_iban<T>&>(p); part(o, i, 1, p.interval, q.is_valid, digest(str_t(q.country) + q.check_digits + q.bban)); } break;
			case CREDITOR: { auto& q = dynamic_cast<P::basic_creditor_reference<T>&>(p); part(o, i, 1, p.interval, q.is_valid, digest(str_t(q.check_digits) + q.reference)); } break;
			case SIREF: { auto& q = dynamic_cast<P::basic_si_reference<T>&>(p); part(o, i, 1, q.part1.interval); part(o, i, 2, q.part2.interval); part(o, i, 3, q.part3.interval);
				part(o, i, 4, p.interval, q.is_valid, q.model[2] ? -1 : 10 * ((int)q.model[0] - '0') + (int)q.model[1] - '0'); } break;
			}
			ints e = { (long long)i, ok, ok ? (long long)p.interval.start : 0, ok ? (long long)p.interval.end : 0, x, y };
			o.insert(o.end(), e.begin(), e.end());
		}
	}
	void go(const vf::scenario_t& sc)
	{
		size_t from = (size_t)sc.ops[0].a[1];
		for (auto& o : sc.ops) {
			auto& a = o.a; auto& op = o.name;
			if (op == "start") event("start", a, {});
			else if (op == "node") { add(a); event("node", a, {}); }
			else if (op == "nodes") { for (size_t i = 0; i < a.size(); i += 1 + (size_t)a[i]) add(ints(a.begin() + (ptrdiff_t)i + 1, a.begin() + (ptrdiff_t)(i + 1 + (size_t)a[i]))); event("nodes", a, {}); }
			else if (op == "text") { len = a.size(); u.reset(new T[len]); for (size_t i = 0; i < len; ++i) u[i] = (T)a[i]; event("text", a, {}); }
			else if (op == "drop") { n[(size_t)a[0]].p->invalidate(); ints w(a); see(from, w, (size_t)a[0]); event("dropped", w, {}); }
			else {
				auto& p = *n[(size_t)a[0]].p; size_t s = (size_t)a[1], e = a[2] < 0 ? SIZE_MAX : (size_t)a[2]; bool r;
				if (op == "search") r = p.search(u.get(), s, e, (int)a[3]);
				else if (a[4]) r = p.match(std::basic_string_view<T>(u.get(), len), s, e, (int)a[3]);
				else r = p.match(u.get(), s, e, (int)a[3]);
				ints w(a.begin(), a.begin() + 4); see(from, w);
				event(op == "search" ? "found" : "matched", w, { r });
			}
		}
	}
};
static void go(const vf::scenario_t& s)
{
	switch (s.ops[0].a[0]) {
	case 0: { grammar<char, false> g; g.go(s); } break;
	case 1: { grammar<wchar_t, false> g; g.go(s); } break;
	default: { grammar<char, true> g; g.go(s); }
	}
}
int main(int c, char** v) { return vf::run(c, v, go, 5); }
