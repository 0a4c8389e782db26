#include <stdex/vector_queue.hpp>
#include <memory>
#include <set>
#include "common.hpp"
using vf::ints; using vf::event;
static std::set<const void*> live; static long long bad = 0, fuse = 0;
struct E {
	long long v;
	E() : v(-5) { if (!live.insert(this).second) ++bad; }
	E(long long x) : v(x) { if (!live.insert(this).second) ++bad; }
	E(const E& o) : v((blow(), o.v)) { if (!live.insert(this).second) ++bad; }
	E(E&& o) noexcept : v(o.v) { o.v = -6; if (!live.insert(this).second) ++bad; }
	~E() { if (!live.erase(this)) ++bad; }
	E& operator=(const E& o) { chk(); o.chk(); blow(); v = o.v; return *this; }
	E& operator=(E&& o) noexcept { chk(); o.chk(); v = o.v; o.v = -6; return *this; }
	void chk() const { if (!live.count(this)) ++bad; }
	static void blow() { if (fuse && !--fuse) throw std::runtime_error("copy"); }
};
using Q = stdex::vector_queue<E>;
template <class F> static long long tr(F f) { try { return f(); } catch (const std::exception&) { return -99; } }
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<Q> q[4]; live.clear(); bad = 0; fuse = 0;
	auto obs = [&](long long i) {
		if (!q[i]) return; const Q& x = *q[i]; ints r = { (long long)x.size(), (long long)x.capacity(), x.empty() };
		for (size_t k = 0; k < x.size() && k < 100; ++k) r.push_back(tr([&] { return x.at_abs(x.abs(k)).v; }));
		event("obs", { i }, r);
	};
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		auto push = [&](auto f) { r = { tr([&] { size_t p = f(*q[a[0]]); fuse = 0; return q[a[0]]->at_abs(p).v; }) }; };
		if (op == "start") { event("start", a, {}); continue; }
		if (op == "end") { for (auto& x : q) x.reset(); event("end", {}, { (long long)live.size(), bad }); continue; }
		if (op != "new" && op != "copyc" && op != "movec" && !q[a[0]]) continue;
		if ((op == "copyc" || op == "movec" || op == "copya" || op == "movea") && !q[a[1]]) continue;
		if ((op == "new" || op == "copyc" || op == "movec") && q[a[0]]) continue;
		if (op == "new") { q[a[0]].reset(new Q((size_t)a[1])); r = { 0 }; }
		else if (op == "del") { q[a[0]].reset(); r = { 0 }; }
		else if (op == "copyc") { fuse = a[2]; r = { tr([&] { q[a[0]].reset(new Q(*(const Q*)q[a[1]].get())); return 0; }) }; }
		else if (op == "movec") q[a[0]].reset(new Q(std::move(*q[a[1]]))), r = { 0 };
		else if (op == "copya") { fuse = a[2]; r = { tr([&] { *q[a[0]] = *(const Q*)q[a[1]].get(); return 0; }) }; }
		else if (op == "movea") { *q[a[0]] = std::move(*q[a[1]]); r = { 0 }; }
		else if (op == "pb") { E e(a[1]); fuse = a[2]; push([&](Q& x) { return x.push_back((const E&)e); }); if (e.v != a[1]) ++bad; }
		else if (op == "pf") { E e(a[1]); fuse = a[2]; push([&](Q& x) { return x.push_front((const E&)e); }); if (e.v != a[1]) ++bad; }
		else if (op == "pbm") { E e(a[1]); push([&](Q& x) { return x.push_back(std::move(e)); }); }
		else if (op == "pfm") { E e(a[1]); push([&](Q& x) { return x.push_front(std::move(e)); }); }
		else if (op == "popb") r = { tr([&] { q[a[0]]->pop_back(); return 0; }) };
		else if (op == "popf") r = { tr([&] { q[a[0]]->pop_front(); return 0; }) };
		else if (op == "clear") { q[a[0]]->clear(); r = { 0 }; }
		else if (op == "get") { Q& x = *q[a[0]]; const Q& c = x; size_t k = (size_t)a[1]; r = { tr([&] { return x.at(k).v; }), tr([&] { return x[k].v; }), tr([&] { return c.at(k).v; }), tr([&] { return c[k].v; }) }; }
		else if (op == "set") r = { tr([&] { (*q[a[0]])[(size_t)a[1]].v = a[2]; return 0; }) };
		else if (op == "ends") { Q& x = *q[a[0]]; const Q& c = x; r = { tr([&] { return x.front().v; }), tr([&] { return c.front().v; }), tr([&] { return x.back().v; }), tr([&] { return c.back().v; }),
			tr([&] { x.tail(); return c.at_abs(c.head()).v; }), tr([&] { return c.at_abs(c.tail()).v; }) }; }
		fuse = 0;
		event(op.c_str(), a, r);
		obs(a[0]); if (op == "copyc" || op == "movec" || op == "copya" || op == "movea") if (a[1] != a[0]) obs(a[1]);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5, 60); }
