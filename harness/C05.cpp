// watchdog driver. Own parameters: timeout(ms) callback duration(ms). Opcodes: 1 reset, 2 sleep ms, 3 destroy (thread 0, at the end)
// All events carry the virtual time in ms.
#include <stdex/watchdog.hpp>
#include "conc.hpp"
#include <chrono>
using vf::ints;
static long long T() { return (long long)(sched::now() / 1000000); }
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	using clk = std::chrono::steady_clock;
	vf::conc_run(s, c, [&] {
		using wd = stdex::watchdog<clk>;
		long long dur = c.par[1];
		{ sched::quiet q; vf::event("create", { T() }, {}); }
		wd* w = new wd(std::chrono::milliseconds(c.par[0]), [dur] {
			{ sched::quiet q; vf::event("cb_begin", { T() }, {}); }
			if (dur) sched::sleep(dur * 1000000ull);
			sched::point();
			{ sched::quiet q; vf::event("cb_end", { T() }, {}); }
		});
		auto run = [&](int t, const vf::program& p) {
			for (auto& o : p) switch (o.code) {
			case 1: w->reset(); { sched::quiet q; vf::event("reset", { T() }, {}); } break;
			case 2: sched::sleep(o.a[0] * 1000000ull); { sched::quiet q; vf::event("slept", { T() }, {}); } break;
			}
		};
		std::vector<std::thread> th;
		for (auto& p : c.th) if (p.first) th.emplace_back(run, p.first, std::cref(p.second));
		if (c.th.count(0)) run(0, c.th.at(0));
		for (auto& t : th) t.join();
		{ sched::quiet q; vf::event("destroy", { T() }, {}); }
		delete w;
		{ sched::quiet q; vf::event("destroyed", { T() }, {}); }
		sched::sleep(3000000000ull * (1 + c.par[0] / 1000));
		{ sched::quiet q; vf::event("slept", { T() }, {}); }
	});
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
