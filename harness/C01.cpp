// ring driver. Opcodes: 1 back, 2 push k, 3 front, 4 pop k, 5 quit, 6 sync
#include <stdex/ring.hpp>
#include "conc.hpp"
using vf::ints;
template <size_t N> static void go(const vf::scenario_t& s, const vf::conc& c)
{
	vf::conc_run(s, c, [&] {
		sched::quiet* q = new sched::quiet;
		stdex::ring<int, N>* r = new stdex::ring<int, N>();
		int next = 1;
		delete q;
		int* m0 = nullptr;      // the ring's storage starts where the first region handed out does
		auto run = [&](int t, const vf::program& p) {
			int *bp = nullptr, *fp = nullptr; size_t bl = 0, fl = 0;
			for (auto& o : p) {
				switch (o.code) {
				case 1: {
					vf::call(t, 1, {});
					auto x = r->back(); bp = std::get<0>(x); bl = std::get<1>(x);
					if (!m0) m0 = bp;
					vf::ret(t, { bp ? (long long)(bp - m0) : -1, (long long)bl });
					break;
				}
				case 2: {
					size_t k = std::min<size_t>(bl, (size_t)o.a[0]);
					if (!bp || !k) break;
					ints v; { sched::quiet q; v.push_back(k); for (size_t i = 0; i < k; ++i) v.push_back(next + (int)i); next += (int)k; }
					for (size_t i = 0; i < k; ++i) if (bp + i >= m0 && bp + i < m0 + N) bp[i] = (int)v[1 + i];
					vf::call(t, 2, v);
					r->push(k); bp += k; bl -= k;
					vf::ret(t, {});
					break;
				}
				case 3: {
					vf::call(t, 3, {});
					auto x = r->front(); fp = std::get<0>(x); fl = std::get<1>(x);
					ints v = { fp ? (long long)(fp - m0) : -1, (long long)fl };
					for (size_t i = 0; fp && i < fl; ++i) v.push_back(fp + i >= m0 && fp + i < m0 + N ? fp[i] : -7);
					vf::ret(t, v);
					break;
				}
				case 4: {
					size_t k = std::min<size_t>(fl, (size_t)o.a[0]);
					if (!fp || !k) break;
					ints v = { (long long)k };
					for (size_t i = 0; i < k; ++i) v.push_back(fp + i >= m0 && fp + i < m0 + N ? fp[i] : -7);
					vf::call(t, 4, v);
					r->pop(k); fp += k; fl -= k;
					vf::ret(t, {});
					break;
				}
				case 5: vf::call(t, 5, {}); r->quit(); vf::ret(t, {}); break;
				case 6: vf::call(t, 6, {}); vf::ret(t, { (long long)r->sync() }); break;
				}
			}
		};
		std::vector<std::thread> th;
		for (auto& p : c.th) if (p.first) th.emplace_back(run, p.first, std::cref(p.second));
		auto m = c.th.find(0);
		if (m != c.th.end()) run(0, m->second);
		for (auto& t : th) t.join();
		delete r;
	});
}
static void scenario(const vf::scenario_t& s)
{
	auto c = vf::parse(s);
	switch (c.par[0]) { case 1: go<1>(s, c); break; case 2: go<2>(s, c); break; case 3: go<3>(s, c); break; case 4: go<4>(s, c); break; case 5: go<5>(s, c); break; case 7: go<7>(s, c); break; default: go<8>(s, c); }
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 60, 600); }
