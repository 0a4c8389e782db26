// async_reader driver. Own parameters: cap total fin(1 eof, 2 fail; 3, 4: reported together with the last bytes) chunk seed. Opcodes (thread 0): 1 read n, 2 allow k, 3 destroy
#include <stdex/stream.hpp>
#include "conc.hpp"
#include <mutex>
#include <condition_variable>
using vf::ints; using namespace stdex::stream;
struct gated : basic {
	long long total, fin, chunk, pos = 0, allowed = 0; bool open = false; uint64_t r;
	std::mutex m; std::condition_variable cv;
	gated(long long t, long long f, long long c, long long s) : total(t), fin(f), chunk(c), r((uint64_t)s) {}
	size_t read(void* d, size_t n) override {
		if (!n) { m_state = state_t::ok; return 0; }
		long long lim;
		{ std::unique_lock<std::mutex> lk(m); cv.wait(lk, [&] { return open || pos < allowed || pos >= total; }); lim = open ? total : std::min(allowed, total); }
		size_t k = (size_t)std::min<long long>((long long)n, lim - pos);
		if (chunk > 0) k = std::min<size_t>(k, (size_t)chunk);
		else if (chunk < 0) { r = r * 6364136223846793005ull + 1442695040888963407ull; k = k ? 1 + (size_t)((r >> 33) % k) : 0; }
		if (pos >= total) { m_state = fin % 2 ? state_t::eof : state_t::fail; return 0; }
		for (size_t i = 0; i < k; ++i) ((uint8_t*)d)[i] = vf::pat(3, pos + i);
		pos += k; m_state = fin > 2 && pos == total ? fin % 2 ? state_t::eof : state_t::fail : state_t::ok; return k;
	}
	void allow(long long k) { { std::lock_guard<std::mutex> lk(m); if (k < 0) open = true; else allowed += k; } cv.notify_all(); }
};
template <size_t N> static void go(const vf::scenario_t& s, const vf::conc& c)
{
	vf::conc_run(s, c, [&] {
		gated* g; { sched::quiet q; g = new gated(c.par[1], c.par[2], c.par[3], c.par[4]); }
		auto* rd = new async_reader<N>(*g);
		auto run = [&](int t, const vf::program& p) {
			for (auto& o : p) switch (o.code) {
			case 1: {
				std::vector<uint8_t> b((size_t)o.a[0] + 1, 0xee);
				vf::call(t, 1, o.a);
				size_t n = rd->read(b.data(), (size_t)o.a[0]);
				ints r = { (long long)n, (long long)(int)rd->state() };
				for (size_t i = 0; i < n && i < b.size(); ++i) r.push_back(b[i]);
				if (b[(size_t)o.a[0]] != 0xee) r.push_back(-7);
				vf::ret(t, r);
				break;
			}
			case 2: vf::call(t, 2, o.a); g->allow(o.a[0]); vf::ret(t, {}); break;
			}
		};
		auto m = c.th.find(0);
		std::thread other;
		if (c.th.count(1)) other = std::thread(run, 1, std::cref(c.th.at(1)));
		if (m != c.th.end()) run(0, m->second);
		if (other.joinable()) other.join();
		vf::call(0, 2, { -1 }); g->allow(-1); vf::ret(0, {});
		vf::call(0, 3, {}); delete rd; vf::ret(0, {});
		delete g;
	});
}
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	switch (c.par[0]) { case 1: go<1>(s, c); break; case 2: go<2>(s, c); break; case 3: go<3>(s, c); break; case 4: go<4>(s, c); break; case 5: go<5>(s, c); break; case 8: go<8>(s, c); break; default: go<64>(s, c); }
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
