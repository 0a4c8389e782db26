// replicator driver. Own parameters: none. Opcodes (thread 0): 1 write tag n, 2 flush, 3 close, 4 push_back stream plan, 5 remove stream, 6 destroy
// plan: what the stream does: -1 accept all; otherwise accepts at most plan/10 bytes per write; plan%10: 0 ok, 1..3 fails at n-th operation, 4..6: reports eof at (n-3)rd
#include <stdex/stream.hpp>
#include "conc.hpp"
using vf::ints; using namespace stdex::stream;
struct sink : basic {
	int id; long long plan; int n = 0; int delay;
	sink(int i, long long p, int d) : id(i), plan(p), delay(d) {}
	state_t next() { ++n; int k = plan < 0 ? 0 : (int)(plan % 10); return k && k <= 3 && n == k ? state_t::fail : k > 3 && n == k - 3 ? state_t::eof : state_t::ok; }
	size_t write(const void* d, size_t len) override {
		for (int i = 0; i < delay; ++i) sched::point();
		m_state = next();
		size_t k = plan < 0 ? len : std::min<size_t>(len, (size_t)(plan / 10));
		std::vector<uint8_t> b((const uint8_t*)d, (const uint8_t*)d + len);
		{ sched::quiet q; ints v = { id, 1, (long long)k, (long long)(int)m_state }; for (auto x : b) v.push_back(x); vf::event("sink", v, {}); }
		return k;
	}
	void flush() override { for (int i = 0; i < delay; ++i) sched::point(); m_state = next(); sched::quiet q; vf::event("sink", { id, 2, 0, (long long)(int)m_state }, {}); }
	void close() override { for (int i = 0; i < delay; ++i) sched::point(); m_state = next(); sched::quiet q; vf::event("sink", { id, 3, 0, (long long)(int)m_state }, {}); }
};
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	vf::conc_run(s, c, [&] {
		replicator* r = new replicator();
		std::map<int, sink*> sinks;
		for (auto& o : c.th.at(0)) switch (o.code) {
			case 1: {
				std::vector<uint8_t>* b = new std::vector<uint8_t>((size_t)o.a[1]);
				for (size_t i = 0; i < b->size(); ++i) (*b)[i] = vf::pat(o.a[0], i);
				vf::call(0, 1, o.a);
				size_t n = r->write(b->data(), b->size());
				vf::ret(0, { (long long)n, (long long)(int)r->state() });
				for (auto& x : *b) x = 0xdd;       // nobody may look at the caller's data any more
				delete b;
				break;
			}
			case 2: vf::call(0, 2, {}); r->flush(); vf::ret(0, { (long long)(int)r->state() }); break;
			case 3: vf::call(0, 3, {}); r->close(); vf::ret(0, { (long long)(int)r->state() }); break;
			case 4: {
				sink* k; { sched::quiet q; k = new sink((int)o.a[0], o.a[1], (int)(o.a[0] * 3 % 5)); sinks[(int)o.a[0]] = k; }
				vf::call(0, 4, o.a); r->push_back(k); vf::ret(0, {});
				break;
			}
			case 5: {
				auto i = sinks.find((int)o.a[0]);
				sink* k = i == sinks.end() ? nullptr : i->second;
				vf::call(0, 5, o.a); r->remove(k); vf::ret(0, {});
				if (k) { k->n = 1000; delete k; sched::quiet q; sinks.erase(i); }
				break;
			}
		}
		vf::call(0, 6, {}); delete r; vf::ret(0, {});
		for (auto& k : sinks) { k.second->n = 1000; delete k.second; }
	});
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
