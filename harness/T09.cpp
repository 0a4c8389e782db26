// HTTP, JSON, CSS, MIME and HTML recognizers driver: see Markup.tla.
//   start [class]                       0 char, 1 wchar_t; every recognizer is used again and again until the end
//   match [kind, start, end (-1: none), text...]
//   drop [kind]                         forget it; all the views are told
//   collect [kind, start, end, text...] a collection of weighted values
#include <stdex/parser.hpp>
#include <cmath>
#include "common.hpp"
using vf::ints; using vf::event; using std::make_shared;
namespace P = stdex::parser;
using wtoken = P::http_weighted_value<P::http_token>; using wmedia = P::http_weighted_value<P::http_media_range, P::http_any_type>; using wlanguage = P::http_weighted_value<P::http_language>;
static void put(ints& o, const stdex::interval<size_t>& i) { if (i) { o.push_back((long long)i.start); o.push_back((long long)i.end); } else { o.push_back(-1); o.push_back(-1); } }
template <class... X> static void put(ints& o, const stdex::interval<size_t>& i, const X&... x) { put(o, i); put(o, x...); }
static long long milli(float v) { return !(v < 1000) ? 1000000 : std::llround((double)v * 1000); }
static bool Forget = false;
template <class T, class X, class... A> static bool at(X& p, const T* t, size_t s, size_t e, ints& o)
{
	if (Forget) { p.invalidate(); o.push_back((bool)p.interval); return true; }
	bool r = p.match(t, s, e); o.push_back(r);
	if (r != (bool)p.interval) o.push_back(-9);
	if (r) { if (p.interval.start != s) o.push_back(-8); o.push_back((long long)p.interval.end); }
	return r;
}
static void put(ints& o, P::http_value& v) { put(o, v.string.interval, v.string.content, v.token.interval); }
struct http {
	P::http_line_break k1; P::http_space k2; P::http_text_char k3; P::http_token k4; P::http_quoted_string k5; P::http_value k6; P::http_parameter k7; P::http_any_type k8; P::http_media_range k9;
	P::http_media_type k10; P::http_url_server k11; P::http_url_port k12; P::http_url_path_segment k13; P::http_url_path k14; P::http_url_parameter k15; P::http_url k16; P::http_language k17;
	P::http_weight k18; P::http_asterisk k19; wtoken k20; wmedia k21; P::http_cookie_parameter k22; P::http_cookie k23; P::http_agent k24; P::http_protocol k25; P::http_request k26; P::http_header k27;
	void match(int k, const char* t, size_t s, size_t e, ints& o)
	{
		auto url = [&](P::http_url& u, bool segments) {
			put(o, u.server.interval); if (segments) put(o, u.port.interval);
			o.push_back(u.port.value); put(o, u.path.interval);
			if (segments) { o.push_back((long long)u.path.segments.size()); for (auto& x : u.path.segments) put(o, x.interval); }
			o.push_back((long long)u.params.size()); for (auto& x : u.params) put(o, x.interval, x.name, x.value);
		};
		switch (k) {
		case 1: at(k1, t, s, e, o); break;
		case 2: at(k2, t, s, e, o); break;
		case 3: at(k3, t, s, e, o); break;
		case 4: at(k4, t, s, e, o); break;
		case 5: if (at(k5, t, s, e, o)) put(o, k5.content); break;
		case 6: if (at(k6, t, s, e, o)) put(o, k6); break;
		case 7: if (at(k7, t, s, e, o)) { put(o, k7.name.interval); put(o, k7.value); } break;
		case 8: at(k8, t, s, e, o); break;
		case 9: if (at(k9, t, s, e, o)) put(o, k9.type.interval, k9.subtype.interval); break;
		case 10: if (at(k10, t, s, e, o)) { put(o, k10.type.interval, k10.subtype.interval); o.push_back((long long)k10.params.size()); for (auto& x : k10.params) { put(o, x.interval, x.name.interval); put(o, x.value); } } break;
		case 11: at(k11, t, s, e, o); break;
		case 12: if (at(k12, t, s, e, o)) o.push_back(k12.value); break;
		case 13: at(k13, t, s, e, o); break;
		case 14: if (at(k14, t, s, e, o)) { o.push_back((long long)k14.segments.size()); for (auto& x : k14.segments) put(o, x.interval); } break;
		case 15: if (at(k15, t, s, e, o)) put(o, k15.name, k15.value); break;
		case 16: if (at(k16, t, s, e, o)) url(k16, true); break;
		case 17: if (at(k17, t, s, e, o)) { o.push_back((long long)k17.components.size()); for (auto& x : k17.components) put(o, x); } break;
		case 18: if (at(k18, t, s, e, o)) o.push_back(milli(k18.value)); break;
		case 19: at(k19, t, s, e, o); break;
		case 20: if (at(k20, t, s, e, o)) { put(o, k20.asterisk.interval, k20.value.interval, k20.factor.interval); o.push_back(milli(k20.factor.value)); } break;
		case 21: if (at(k21, t, s, e, o)) { put(o, k21.asterisk.interval, k21.value.interval, k21.factor.interval); o.push_back(milli(k21.factor.value)); } break;
		case 22: if (at(k22, t, s, e, o)) { put(o, k22.name.interval); put(o, k22.value); } break;
		case 23: if (at(k23, t, s, e, o)) { put(o, k23.name.interval); put(o, k23.value); o.push_back((long long)k23.params.size()); for (auto& x : k23.params) { put(o, x.interval, x.name.interval); put(o, x.value); } } break;
		case 24: if (at(k24, t, s, e, o)) put(o, k24.type, k24.version); break;
		case 25: if (at(k25, t, s, e, o)) { put(o, k25.type, k25.version_maj, k25.version_min); o.push_back(k25.version); } break;
		case 26: if (at(k26, t, s, e, o)) { put(o, k26.verb, k26.url.interval); url(k26.url, false); put(o, k26.protocol.interval); o.push_back(k26.protocol.version); } break;
		case 27: if (at(k27, t, s, e, o)) { if (k27.value.start == SIZE_MAX) k27.value.end = 0; put(o, k27.name, k27.value); } break;
		}
	}
};
template <class X> static void collect(const char* t, size_t s, size_t e, ints& o)
{
	P::http_weighted_collection<X> c; c.insert(t, s, e); o.push_back((long long)c.size());
	for (auto& x : c) { put(o, x.interval); o.push_back(milli(x.factor.value)); }
}
template <class T> struct markup {
	std::shared_ptr<P::basic_json_string<T>> json;
	P::basic_css_comment<T> k31; P::basic_css_cdo<T> k32; P::basic_css_cdc<T> k33; P::basic_css_string<T> k34; P::basic_css_uri<T> k35; P::basic_css_import<T> k36; P::basic_mime_type<T> k37;
	P::basic_html_ident<T> k40; P::basic_html_value<T> k41; P::basic_html_tag<T> k42; P::basic_html_declaration_condition_start<T> k43; P::basic_html_declaration_condition_end<T> k44;
	markup()
	{
		using cu = P::basic_cu<T>; auto c = [](char x) { return make_shared<cu>((T)x); };
		const T no[] = { '"', '\\', 0 }; std::shared_ptr<P::basic_parser<T>> d[16]; for (int i = 0; i < 16; ++i) d[i] = c("0123456789abcdef"[i]);
		auto hex = make_shared<P::basic_integer16<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]);
		json = make_shared<P::basic_json_string<T>>(c('"'), make_shared<P::basic_cu_set<T>>(no, SIZE_MAX, true), c('\\'), c('/'), c('b'), c('f'), c('n'), c('r'), c('t'), c('u'), hex);
	}
	void match(int k, const T* t, size_t s, size_t e, ints& o)
	{
		switch (k) {
		case 30: if (at(*json, t, s, e, o)) for (auto x : json->value) o.push_back((long long)(std::make_unsigned_t<T>)x); break;
		case 31: if (at(k31, t, s, e, o)) put(o, k31.content); break;
		case 32: at(k32, t, s, e, o); break;
		case 33: at(k33, t, s, e, o); break;
		case 34: if (at(k34, t, s, e, o)) put(o, k34.content); break;
		case 35: if (at(k35, t, s, e, o)) put(o, k35.content); break;
		case 36: if (at(k36, t, s, e, o)) put(o, k36.content); break;
		case 37: if (at(k37, t, s, e, o)) put(o, k37.base_type, k37.sub_type, k37.charset); break;
		case 40: at(k40, t, s, e, o); break;
		case 41: if (at(k41, t, s, e, o)) put(o, k41.content); break;
		case 42: if (at(k42, t, s, e, o)) { o.push_back((long long)k42.type); put(o, k42.name); o.push_back((long long)k42.attributes.size()); for (auto& x : k42.attributes) put(o, x.name, x.value); } break;
		case 43: if (at(k43, t, s, e, o)) put(o, k43.condition); break;
		case 44: at(k44, t, s, e, o); break;
		}
	}
};
template <class T> static void run(const vf::scenario_t& sc)
{
	http h; markup<T> m;
	for (auto& o : sc.ops) {
		auto& a = o.a;
		if (o.name == "start") { event("start", a, {}); continue; }
		if ((Forget = o.name == "drop")) {
			ints r; if (a[0] >= 30) m.match((int)a[0], nullptr, 0, 0, r); else if constexpr (sizeof(T) == 1) h.match((int)a[0], nullptr, 0, 0, r);
			event("drop", a, r); continue;
		}
		size_t n = a.size() - 3, s = (size_t)a[1], e = a[2] < 0 ? SIZE_MAX : (size_t)a[2]; std::unique_ptr<T[]> u(new T[n]); for (size_t i = 0; i < n; ++i) u[i] = (T)a[i + 3];
		ints r;
		if constexpr (sizeof(T) == 1) {
			if (o.name == "collect") switch (a[0]) {
				case 20: collect<wtoken>(u.get(), s, e, r); break;
				case 21: collect<wmedia>(u.get(), s, e, r); break;
				default: collect<wlanguage>(u.get(), s, e, r);
			}
			else if (a[0] < 30) h.match((int)a[0], u.get(), s, e, r);
		}
		if (a[0] >= 30) m.match((int)a[0], u.get(), s, e, r);
		event(o.name == "match" ? "match" : "collect", a, r);
	}
}
static void go(const vf::scenario_t& s) { if (s.ops[0].a[0]) run<wchar_t>(s); else run<char>(s); }
int main(int c, char** v) { return vf::run(c, v, go, 5); }
