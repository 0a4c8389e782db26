// async_writer driver. Own parameters: cap failat(-1 never) chunk(0 all, -1 random) flushfails(n-th flush, 0 never) closefails(0/1) seed.
// Opcodes (thread 0): 1 write n, 2 flush, 3 destroy, 4 close
#include <stdex/stream.hpp>
#include "conc.hpp"
using vf::ints; using namespace stdex::stream;
struct sink : basic {
	long long failat, chunk, flushfails, closefails; uint64_t r; long long pos = 0, flushes = 0; bool failed = false;
	sink(const ints& p) : failat(p[1]), chunk(p[2]), flushfails(p[3]), closefails(p[4]), r((uint64_t)p[5]) {}
	size_t write(const void* d, size_t n) override {
		size_t k = n; bool ok = true;
		if (chunk > 0) k = std::min<size_t>(k, (size_t)chunk);
		else if (chunk < 0) { r = r * 6364136223846793005ull + 1442695040888963407ull; k = k ? 1 + (size_t)((r >> 33) % k) : 0; }
		if (failat >= 0 && pos + (long long)k >= failat && n) { k = (size_t)std::max<long long>(0, std::min<long long>(failat - pos, n)); if (k < n || failat == pos) ok = false; }
		std::vector<uint8_t> b((const uint8_t*)d, (const uint8_t*)d + k);
		pos += k;
		m_state = ok ? state_t::ok : state_t::fail;
		{ sched::quiet q; ints v = { (long long)(int)m_state }; for (auto x : b) v.push_back(x); vf::event("sink", v, {}); }
		return k;
	}
	void flush() override { flushes++; m_state = flushfails == flushes ? state_t::fail : state_t::ok; sched::quiet q; vf::event("sinkflush", { (long long)(int)m_state }, {}); }
	void close() override { m_state = closefails ? state_t::fail : state_t::ok; sched::quiet q; vf::event("sinkclose", { (long long)(int)m_state }, {}); }
};
template <size_t N> static void go(const vf::scenario_t& s, const vf::conc& c)
{
	vf::conc_run(s, c, [&] {
		sink* g; { sched::quiet q; g = new sink(c.par); }
		auto* w = new async_writer<N>(*g);
		long long pos = 0;
		for (auto& o : c.th.count(0) ? c.th.at(0) : vf::program()) switch (o.code) {
			case 1: {
				std::vector<uint8_t> b((size_t)o.a[0]);
				for (size_t i = 0; i < b.size(); ++i) b[i] = vf::pat(4, pos + i);
				vf::call(0, 1, o.a);
				size_t n = w->write(b.data(), b.size());
				pos += n;
				vf::ret(0, { (long long)n, (long long)(int)w->state() });
				break;
			}
			case 2: vf::call(0, 2, {}); w->flush(); vf::ret(0, { (long long)(int)w->state() }); break;
			case 4: vf::call(0, 4, {}); w->close(); vf::ret(0, { (long long)(int)w->state() }); break;
		}
		vf::call(0, 3, {}); delete w; vf::ret(0, {});
		delete g;
	});
}
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	switch (c.par[0]) { case 1: go<1>(s, c); break; case 2: go<2>(s, c); break; case 3: go<3>(s, c); break; case 4: go<4>(s, c); break; case 5: go<5>(s, c); break; case 8: go<8>(s, c); break; default: go<64>(s, c); }
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
