// A deterministic scheduler for the real code: exactly one managed thread runs at a time, and which one goes on is
// decided here at every synchronisation operation, atomic access and (in code built with -fsanitize=thread
// -  the instrumentation only, the runtime is sched.cpp) at every plain memory access. Time is virtual.
#pragma once
#include <functional>
#include <cstdint>
#include <vector>
namespace sched {
	struct params {
		int mode = 0;               // 0: random walk, 1: PCT, 2: systematic (depth first, bounded preemptions), 3: run until blocked
		uint64_t seed = 1;
		int memory = 1;             // preempt at plain memory accesses, too
		int races = 1;              // report unordered conflicting accesses
		int bound = 2;              // mode 2: preemptions per run
		int max_runs = 200;         // mode 2
		int early = 0;              // per mille: chance of a timed wait to expire although others could run
		int spurious = 0;           // per mille: chance of a spurious wakeup
		int stutter = 0;            // memory/sync steps between preemptions, mode 0 (0: chosen at random)
		long max_steps = 400000;
	};
	// Runs body (as managed thread 0) under the scheduler, once or (mode 2) many times.
	// before(run) is called before each run; result(what) after: 0 finished, 1 deadlock, 2 hang.
	// Returns number of runs.
	int run(const params& p, const std::function<void(int)>& before, const std::function<void()>& body, const std::function<void(int)>& after);
	int self();                     // number of the current managed thread, or -1
	uint64_t now();                 // virtual time in ns
	void point();                   // an explicit scheduling point
	void advance(uint64_t ns);      // the current thread takes this long (virtual time passes)
	void sleep(uint64_t ns);
	long steps();
	bool raced();
	// No scheduling and no race detection inside (harness bookkeeping).
	struct quiet { quiet(); ~quiet(); };
	uint64_t rnd();                 // random numbers of this run
}
