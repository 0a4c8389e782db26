// aggregate_progress driver. Own parameters: workers. Opcodes: thread 1..: 1 set v, 2 set_range s e, 3 set_text i, 4 show b, 5 cancel (worker thread-1);
// thread 0: 6 attach h (0: none), 7 detach. Events: host [host, thread, kind, x, y]
#include <stdex/progress.hpp>
#include "conc.hpp"
#include <atomic>
using vf::ints; using stdex::progress;
struct host : progress<int> {
	int id; std::atomic<int> n{ 0 };
	host(int i) : id(i) {}
	void ev(int kind, long long x, long long y) { sched::point(); sched::quiet q; vf::event("host", { id, sched::self(), kind, x, y }, {}); }
	void set(int v) override { ev(1, v, 0); }
	void set_range(int s, int e) override { ev(2, s, e); }
	void set_text(const char* t) override { ev(3, atoi(t + 1), 0); }
	void show(bool b) override { ev(4, b, 0); }
	bool cancel() override { bool r = n++ % 2; ev(5, r, 0); return r; }
};
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	vf::conc_run(s, c, [&] {
		std::vector<host*> h; { sched::quiet q; for (int i = 0; i < 4; ++i) h.push_back(i ? new host(i) : nullptr); }
		vf::call(0, 6, { c.par[1] });
		auto* a = new stdex::aggregate_progress<int>((size_t)c.par[0], h[(size_t)c.par[1]]);
		vf::ret(0, {});
		auto run = [&](int t, const vf::program& prog) {
			for (auto& o : prog) {
				vf::call(t, o.code, o.a);
				switch (o.code) {
				case 1: (*a)[t - 1].set((int)o.a[0]); vf::ret(t, {}); break;
				case 2: (*a)[t - 1].set_range((int)o.a[0], (int)o.a[1]); vf::ret(t, {}); break;
				case 3: (*a)[t - 1].set_text(("t" + std::to_string(o.a[0])).c_str()); vf::ret(t, {}); break;
				case 4: (*a)[t - 1].show(o.a[0] != 0); vf::ret(t, {}); break;
				case 5: { bool r = (*a)[t - 1].cancel(); vf::ret(t, { r }); break; }
				case 6: a->attach(h[(size_t)o.a[0]]); vf::ret(t, {}); break;
				case 7: { auto* p = (host*)a->detach(); vf::ret(t, { p ? p->id : 0 }); break; }
				}
			}
		};
		std::vector<std::thread> th;
		for (auto& pr : c.th) if (pr.first) th.emplace_back(run, pr.first, std::cref(pr.second));
		if (c.th.count(0)) run(0, c.th.at(0));
		for (auto& t : th) t.join();
		delete a;
		for (auto* x : h) delete x;
	});
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
