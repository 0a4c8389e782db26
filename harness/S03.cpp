// buffer driver. start: read capacity, write capacity, device (total fin chunk wlimit wmode wchunk)
#include "streams.hpp"
using namespace stdex::stream; using vf::ints; using vf::event; using vf::pat;
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<vf::dev> d; std::unique_ptr<buffer> b; bool shut = false; size_t sent = 0; long long refused = 0, flushes = 0, closes = 0; long long pos = 0;
	auto sink = [&] {
		if (d->got.size() == sent && d->refused == refused && d->flushes == flushes && d->closes == closes) return;
		ints v = { d->refused > refused, d->flushes - flushes, d->closes - closes };
		for (; sent < d->got.size(); ++sent) v.push_back(d->got[sent]);
		refused = d->refused; flushes = d->flushes; closes = d->closes;
		event("sink", v, {});
	};
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") { d.reset(new vf::dev(&a[2])); b.reset(new buffer(*d, (size_t)a[0], (size_t)a[1])); event("start", a, {}); continue; }
		if (!b || (shut && op != "destroy")) continue;
		auto st = [&] { return (long long)(int)b->state(); };
		if (op == "read") {
			std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
			size_t n = b->read(p.get(), (size_t)a[0]);
			r = { (long long)n, st() }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
		}
		else if (op == "write") {
			std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
			for (long long i = 0; i < a[0]; ++i) p[i] = pat(4, pos + i);
			size_t n = b->write(p.get(), (size_t)a[0]); pos += n;
			sink(); r = { (long long)n, st() };
		}
		else if (op == "flush") { b->flush(); sink(); r = { st() }; }
		else if (op == "close") { b->close(); shut = true; sink(); r = { st() }; }
		else if (op == "destroy") { b.reset(); sink(); }
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
