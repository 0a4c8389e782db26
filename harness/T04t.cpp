// Rebuilding parts of HTML documents: see Tokens.tla.
//   start [], end [stack..], begin [from, stack..], insert [token, word, after, stack..], word [word, after], merge [length of the first, lists..]
#include <stdex/html.hpp>
#include "common.hpp"
using vf::ints; using vf::event;
namespace H = stdex::html;
using P = H::parser<wchar_t>; using text = H::text_token<wchar_t>;
static const wchar_t source[] = L"<b><i class=\"x\"><u><zz><br></zz>";
static void run(const vf::scenario_t& sc)
{
	H::document<wchar_t> d; d.assign(source, sizeof(source) / sizeof(*source));
	P p(d); p.parse();
	std::vector<H::token*> pool;
	for (auto& t : p.tokens()) if (pool.size() < 6) pool.push_back(t.get());
	static const H::token_t types[] = { H::token_t::starting, H::token_t::starting, H::token_t::starting, H::token_t::starting, H::token_t::complete, H::token_t::ending };
	for (size_t i = 0; i < 6; ++i) if (i >= pool.size() || pool[i]->type != types[i]) { event("start", {}, { -1, (long long)i }); return; }
	auto list = [&](const ints& a, size_t from, size_t to) { H::token_list l; for (size_t i = from; i < to; ++i) l.push_back(pool[a[i]]); return l; };
	auto id = [&](const H::token* t) { for (size_t i = 0; i < pool.size(); ++i) if (pool[i] == t) return (long long)i; return -5LL; };
	auto put = [&](ints& o, const H::token_list& l) { for (auto t : l) o.push_back(id(t)); };
	auto appended = [&](ints& o, const std::wstring& s) {
		for (size_t i = 0; i < s.size();) {
			auto t = H::token::parse_tag(s.c_str(), i);
			if (!t) { o.push_back(-6); i++; continue; }
			auto n = id(t);
			if (n < 0) {
				auto e = dynamic_cast<text*>(t); std::wstring w;
				if (e && e->type == H::token_t::ending) P::link(w, e);
				for (size_t k = 0; k < 4; ++k) if (w == L"</" + dynamic_cast<H::starting_token<wchar_t>*>(pool[k])->name + L">") n = 100 + (long long)k;
			}
			o.push_back(n);
		}
	};
	H::token_list act; H::inserted_token_list ins;
	for (auto& op : sc.ops) {
		auto& a = op.a; ints o; std::wstring s;
		if (op.name == "start") { act.clear(); ins.clear(); }
		else if (op.name == "end") {
			auto l = list(a, 0, a.size()); auto i = p.end_tokens(s, act, l);
			o.push_back((long long)std::distance(l.cbegin(), i)); appended(o, s); o.push_back(-7); put(o, act);
		}
		else if (op.name == "begin") {
			auto l = list(a, 1, a.size()); auto i = l.cbegin(); std::advance(i, a[0]);
			P::start_tokens(s, act, l, i); appended(o, s); o.push_back(-7); put(o, act);
		}
		else if (op.name == "insert") ins.push_back({ pool[a[0]], list(a, 3, a.size()), (size_t)a[1], a[2] != 0 });
		else if (op.name == "word") {
			p.append_inserted_tokens(s, ins, (size_t)a[0], a[1] != 0, act);
			appended(o, s); o.push_back(-7); put(o, act); o.push_back(-7); for (auto& t : ins) o.push_back(id(t.token));
		}
		else if (op.name == "merge") { auto x = list(a, 1, 1 + (size_t)a[0]); P::merge(x, list(a, 1 + (size_t)a[0], a.size())); put(o, x); }
		else continue;
		event(op.name.c_str(), a, o);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, run); }
