// pool driver. Own parameters: kind (0 items that can only be moved, 1 ints). Opcodes: 1 pop node, 2 push node id, 3 clear, 4 destroy (thread 0); node -1: that of the processor
// the thread runs on (thread t runs on processor t, which belongs to node t % 3)
#include <stdex/pool.hpp>
#include "conc.hpp"
using vf::ints;
extern "C" int sched_getcpu(void) { return sched::self() < 0 ? 0 : sched::self(); }
extern "C" int numa_node_of_cpu(int cpu) { return cpu % 3; }
struct item {
	int id;
	item(int i = 0) : id(i) {}
	item(item&& o) noexcept : id(o.id) { o.id = 0; }
	item& operator=(item&& o) noexcept { if (this != &o) { gone(); id = o.id; o.id = 0; } return *this; }
	item(const item&) = delete;
	void gone() { if (id) { sched::quiet q; vf::event("gone", { id }, {}); } }
	~item() { gone(); }
};
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	vf::conc_run(s, c, [&] {
		auto* p = new stdex::pool<item>();
		auto run = [&](int t, const vf::program& prog) {
			for (auto& o : prog) switch (o.code) {
			case 1: {
				ints a = o.a; a.push_back(sched::self() % 3);
				vf::call(t, 1, a);
				if (o.a[0] < 0) { item x = p->pop(); vf::ret(t, { x.id }); x.id = 0; }
				else { item x = p->pop((int)o.a[0]); vf::ret(t, { x.id }); x.id = 0; }
				break;
			}
			case 2: {
				ints a = o.a; a.push_back(sched::self() % 3);
				item x((int)o.a[1]);
				vf::call(t, 2, a);
				if (o.a[0] < 0) p->push(std::move(x)); else p->push(std::move(x), (int)o.a[0]);
				vf::ret(t, { x.id }); x.id = 0;
				break;
			}
			case 3: vf::call(t, 3, {}); p->clear(); vf::ret(t, {}); break;
			}
		};
		std::vector<std::thread> th;
		for (auto& pr : c.th) if (pr.first) th.emplace_back(run, pr.first, std::cref(pr.second));
		if (c.th.count(0)) run(0, c.th.at(0));
		for (auto& t : th) t.join();
		vf::call(0, 4, {}); delete p; vf::ret(0, {});
	});
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
