// Single progress indicators. Own parameters: kind (1 lazy, 2 timeout, 3 global, 4 switcher) timeout(ms) host(0/1).
// Opcodes (thread 0): 1 set v, 2 set_range s e, 3 set_text i, 4 show b, 5 cancel, 6 sleep ms, 7 host wants to cancel b, 8 attach 0/1, 9 detach, 10 set_global_range s e, 11 set_section_range s e
// The result is what the host (lazy: do_set) was told: kind x y, each; cancel's own result at the end.
#include <stdex/progress.hpp>
#include "conc.hpp"
using vf::ints; using namespace stdex;
static ints log_;
struct host : progress<int> {
	bool c = false;
	void ev(long long k, long long x, long long y) { log_.insert(log_.end(), { k, x, y }); }
	void set(int v) override { ev(1, v, 0); }
	void set_range(int s, int e) override { ev(2, s, e); }
	void set_text(const char* t) override { ev(3, atoi(t + 1), 0); }
	void show(bool b) override { ev(4, b, 0); }
	bool cancel() override { return c; }
};
struct lazy : lazy_progress<int> {
	lazy(std::chrono::nanoseconds t) : lazy_progress<int>(t) {}
	void do_set() override { log_.insert(log_.end(), { 1, this->m_value, 0 }); }
};
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	vf::conc_run(s, c, [&] {
		host h, h2; host* ph = c.par[2] ? &h : nullptr;
		log_.clear();
		progress<int>* slot = ph;
		lazy lz(std::chrono::milliseconds(c.par[1]));
		timeout_progress<int> tp(std::chrono::milliseconds(c.par[1]), ph);
		global_progress<int> gp(ph);
		progress_switcher<int>* sw = nullptr;
		if (c.par[0] == 4) sw = new progress_switcher<int>(slot);
		progress<int>* p = c.par[0] == 1 ? (progress<int>*)&lz : c.par[0] == 2 ? (progress<int>*)&tp : c.par[0] == 3 ? (progress<int>*)&gp : slot;
		global_progress<int>* g = c.par[0] == 3 ? &gp : sw;
		for (auto& o : c.th.count(0) ? c.th.at(0) : vf::program()) {
			log_.clear();
			vf::call(0, o.code, o.a);
			ints extra;
			switch (o.code) {
			case 1: p->set((int)o.a[0]); break;
			case 2: p->set_range((int)o.a[0], (int)o.a[1]); break;
			case 3: p->set_text(("t" + std::to_string(o.a[0])).c_str()); break;
			case 4: p->show(o.a[0] != 0); break;
			case 5: extra = { p->cancel() }; break;
			case 6: sched::sleep((uint64_t)o.a[0] * 1000000ull); break;
			case 7: h.c = o.a[0] != 0; break;
			case 8: if (g) g->attach(o.a[0] ? &h : nullptr); break;
			case 9: if (g) { auto* x = g->detach(); extra = { x == &h ? 1 : x ? 2 : 0 }; } break;
			case 10: if (g) g->set_global_range((int)o.a[0], (int)o.a[1]); break;
			case 11: if (g) g->set_section_range((int)o.a[0], (int)o.a[1]); break;
			}
			ints r = log_; r.insert(r.end(), extra.begin(), extra.end());
			vf::ret(0, r);
		}
		// The switcher puts the host back
		vf::call(0, 12, {});
		bool in = !sw || slot == sw;
		delete sw;
		vf::ret(0, { in, slot == nullptr ? 0 : slot == &h ? 1 : 2 });
	});
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
