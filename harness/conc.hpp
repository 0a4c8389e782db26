// Concurrent scenarios: per-thread programs, run under the scheduler, recorded as call and return events.
//   start <mode> <seed> <memory> <bound> <max_runs> <early> <spurious> <scenario's own parameters...>
//   t <thread> <opcode> <arguments...>
#pragma once
#include "common.hpp"
#include "sched.hpp"
#include <map>
#include <thread>
namespace vf {
	struct cop { long long code; ints a; };
	using program = std::vector<cop>;
	struct conc {
		std::map<int, program> th;
		ints par;
		sched::params p;
	};
	inline conc parse(const scenario_t& s)
	{
		conc c;
		for (auto& o : s.ops) {
			if (o.name == "start") {
				c.p.mode = (int)o.a[0]; c.p.seed = (uint64_t)o.a[1]; c.p.memory = (int)o.a[2]; c.p.bound = (int)o.a[3]; c.p.max_runs = (int)o.a[4];
				c.p.early = (int)o.a[5]; c.p.spurious = (int)o.a[6];
				c.par.assign(o.a.begin() + 7, o.a.end());
			}
			else {
				cop x; x.code = o.a[1]; x.a.assign(o.a.begin() + 2, o.a.end());
				c.th[(int)o.a[0]].push_back(x);
			}
		}
		return c;
	}
	inline void call(int t, long long code, ints a) { sched::quiet q; a.insert(a.begin(), { (long long)t, code }); event("call", a, {}); }
	inline void ret(int t, const ints& r) { sched::quiet q; event("ret", { (long long)t }, r); }
	inline long conc_runs = 0;
	template <class F>
	void conc_run(const scenario_t& s, const conc& c, F body)
	{
		auto& start = s.ops[0].a;
		conc_runs += sched::run(c.p, [&](int) { event("start", start, {}); }, body, [&](int what) {
			if (sched::raced()) event("race", {}, {});
			event(what == 0 ? "end" : what == 1 ? "deadlock" : "hang", {}, {});
			if (out.size() > (1 << 20)) flush_trace();
		});
	}
}
