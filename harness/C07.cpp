// spinlock driver. Opcodes: 1 lock, 2 try_lock, 3 unlock (if held). Inside the critical section a plain counter is incremented; it is reported.
#include <stdex/spinlock.hpp>
#include "conc.hpp"
using vf::ints;
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	vf::conc_run(s, c, [&] {
		auto* l = new stdex::spinlock();
		long long* n = new long long(0);
		auto run = [&](int t, const vf::program& prog) {
			bool held = false;
			auto enter = [&] { held = true; long long v = *n; *n = v + 1; return v; };
			for (auto& o : prog) switch (o.code) {
			case 1: if (held) break; vf::call(t, 1, {}); l->lock(); vf::ret(t, { enter() }); break;
			case 2: { vf::call(t, 2, {}); bool r = l->try_lock(); if (r) vf::ret(t, { enter() }); else vf::ret(t, { -1 }); break; }
			case 3: if (!held) break; held = false; vf::call(t, 3, {}); l->unlock(); vf::ret(t, {}); break;
			}
			if (held) { vf::call(t, 3, {}); l->unlock(); vf::ret(t, {}); }
		};
		std::vector<std::thread> th;
		for (auto& pr : c.th) if (pr.first) th.emplace_back(run, pr.first, std::cref(pr.second));
		for (auto& t : th) t.join();
		delete l; delete n;
	});
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
