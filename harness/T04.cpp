// HTML documents driver: see Html.tla.
//   start [class]          0 char, 1 wchar_t
//   append [text...], assign [text...], finalize [], clear []
//   parse [1: frames allowed, 1: cancelled], followed by an event linked [1: frames allowed, source rebuilt..] and placed [1: frames allowed, where in the source each part is..]
//   traits [..]
#include <stdex/html.hpp>
#include <map>
#include "common.hpp"
using vf::ints; using vf::event;
namespace H = stdex::html; namespace P = stdex::parser;
static void put(ints& o, const stdex::interval<size_t>& i) { if (i) { o.push_back((long long)i.start); o.push_back((long long)i.end); } else { o.push_back(-1); o.push_back(-1); } }
template <class T> struct doc : H::document<T> {
	std::map<const H::sequence*, long long> index() const { std::map<const H::sequence*, long long> m; long long i = 0; m[nullptr] = -1; for (auto& s : this->m_sequences) m[s.get()] = i++; return m; }
	static void attrs(ints& o, const std::vector<P::html_attribute>& v) { o.push_back((long long)v.size()); for (auto& a : v) { put(o, a.name); put(o, a.value); } }
	ints dump() const
	{
		auto m = index(); ints o{ (long long)this->m_charset, (long long)this->m_sequences.size() };
		auto at = [&](const H::sequence* p) { auto i = m.find(p); o.push_back(i == m.end() ? -77 : i->second); };
		for (auto& s : this->m_sequences) {
			o.push_back((long long)s->type); o.push_back((long long)s->interval.start); o.push_back((long long)s->interval.end); at(s->parent);
			switch (s->type) {
			case P::html_sequence_t::element: case P::html_sequence_t::element_start: {
				auto& e = dynamic_cast<const H::element&>(*s); o.push_back((long long)e.code); put(o, e.name); attrs(o, e.attributes);
				if (s->type == P::html_sequence_t::element_start) at(dynamic_cast<const H::element_start&>(*s).end);
				break; }
			case P::html_sequence_t::element_end: { auto& e = dynamic_cast<const H::element_end&>(*s); o.push_back((long long)e.code); put(o, e.name); at(e.start); break; }
			case P::html_sequence_t::declaration: { auto& e = dynamic_cast<const H::declaration&>(*s); put(o, e.name); attrs(o, e.attributes); break; }
			case P::html_sequence_t::comment: put(o, dynamic_cast<const H::comment&>(*s).content); break;
			case P::html_sequence_t::instruction: put(o, dynamic_cast<const H::instruction&>(*s).content); break;
			default:;
			}
		}
		return o;
	}
};
struct user : stdex::progress<size_t> {
	bool stop; size_t size, at = 0; bool ranged = false, good = true;
	user(bool c, size_t n) : stop(c), size(n) {}
	void set_range(size_t a, size_t b) override { if (a != 0 || b != size) good = false; ranged = true; }
	void set(size_t v) override { if (!ranged || v < at || v > size) good = false; at = v; }
	bool cancel() override { return stop; }
};
using wparser = H::parser<wchar_t>;
static void dump(ints& o, const std::map<const H::sequence*, long long>& m, const H::token* t)
{
	auto at = [&](const H::sequence* p) { auto i = m.find(p); o.push_back(i == m.end() ? -77 : i->second); };
	o.push_back(-1);
	if (t->type == H::token_t::url) {
		auto u = dynamic_cast<const H::url_token<wchar_t>*>(t);
		o.push_back(4); o.push_back((long long)u->encoding); at(u->sequence); for (auto c : u->url) o.push_back(c);
	} else {
		auto u = dynamic_cast<const H::text_token<wchar_t>*>(t);
		o.push_back((long long)u->type); o.push_back(u->text_type); at(u->sequence);
		if (u->type == H::token_t::starting) {
			auto s = dynamic_cast<const H::starting_token<wchar_t>*>(t);
			at(s->end_sequence); o.push_back((long long)s->name.size()); for (auto c : s->name) o.push_back(c);
		}
		for (size_t i = 0; i < u->text.size();) {
			auto n = H::token::parse_tag(u->text.c_str(), i);
			if (n) dump(o, m, n); else o.push_back(u->text[i++]);
		}
	}
	o.push_back(-2);
}
static void places(ints& o, const H::text_token<wchar_t>* u)
{
	for (size_t i = 0; i < u->text.size();) {
		auto p = stdex::dst2src(u->mapping, i); size_t j = i;
		auto n = H::token::parse_tag(u->text.c_str(), i);
		o.push_back((long long)p);
		if (n) {
			o.push_back(-1);
			if (n->type != H::token_t::url) places(o, dynamic_cast<const H::text_token<wchar_t>*>(n));
			o.push_back(-2);
		} else {
			o.push_back((long long)stdex::src2dst(u->mapping, p) - (long long)j);
			i++;
		}
	}
}
static void parse(const ints& a, const doc<wchar_t>& d)
{
	user pr(a[1] != 0, d.source().size()); ints o;
	wparser p(d, nullptr, 0, a[0] != 0, &pr);
	try {
		auto t = p.parse();
		o.push_back(pr.good && pr.ranged); dump(o, d.index(), t); event("parse", a, o);
		std::wstring s; wparser::link(s, t);
		ints l; l.push_back(a[0]); for (auto c : s) l.push_back(c);
		event("linked", l, {});
		ints q; q.push_back(a[0]); places(q, t);
		event("placed", q, {});
	}
	catch (const stdex::user_cancelled&) { event("parse", a, { -2 }); }
	catch (const std::invalid_argument&) { event("parse", a, { -1 }); }
}
template <class T> static void traits(const ints& a)
{
	using X = H::element_traits; auto c = (H::element_t)a[1]; ints o;
	if (a[0] == 1) o = { (long long)X::span(c), X::is_fontstyle(c), X::is_phrase(c), X::is_special(c), X::is_formctrl(c), X::is_inline(c), X::is_heading(c), X::is_list(c),
		X::is_preformatted(c), X::is_block(c), X::is_flow(c), X::is_head_content(c), X::is_head_misc(c), X::is_pre_exclusion(c), X::is_html_content(c), X::is_group(c) };
	else if (a[0] == 2) for (int i = -3; i <= (int)H::element_t::xmp; ++i) o.push_back(X::may_contain(c, (H::element_t)i));
	else {
		std::unique_ptr<T[]> n(new T[a.size() - 2]); for (size_t i = 2; i < a.size(); ++i) n[i - 2] = (T)a[i];
		o = { X::is_uri(c, n.get(), a.size() - 2), X::is_localizable(c, n.get(), a.size() - 2) };
	}
	event("traits", a, o);
}
template <class T> static void run(const vf::scenario_t& sc)
{
	std::unique_ptr<doc<T>> d; int mode = 0;
	for (auto& o : sc.ops) {
		auto& a = o.a;
		if (o.name == "start") { d.reset(new doc<T>); mode = 0; event("start", a, {}); continue; }
		if (o.name == "traits") { traits<T>(a); continue; }
		std::unique_ptr<T[]> u(new T[a.size()]); for (size_t i = 0; i < a.size(); ++i) u[i] = (T)a[i];
		if (o.name == "append") {
			if (mode) continue;
			try { d->append(u.get(), a.size()); event("append", a, d->dump()); } catch (const std::runtime_error&) { mode = 2; event("append", a, { -99 }); }
		}
		else if (o.name == "assign") {
			try { d->assign(u.get(), a.size()); mode = 1; event("assign", a, d->dump()); } catch (const std::runtime_error&) { mode = 2; event("assign", a, { -99 }); }
		}
		else if (o.name == "finalize") { if (mode) continue; d->finalize(); mode = 1; event("finalize", a, d->dump()); }
		else if (o.name == "clear") { d->clear(); mode = 0; event("clear", a, d->dump()); }
		else if (o.name == "parse") { if constexpr (sizeof(T) > 1) if (mode != 2) parse(a, *d); }
	}
}
int main(int argc, char** argv)
{
	return vf::run(argc, argv, [](const vf::scenario_t& s) { if (s.ops[0].a[0]) run<wchar_t>(s); else run<char>(s); });
}
