// limiter and window driver. start: kind (0 limiter, 1 window), read offset, read limit, write offset, write limit, device parameters
#include "streams.hpp"
using namespace stdex::stream; using vf::ints; using vf::event; using vf::pat;
static const stdex::stream::fsize_t nolimit = stdex::stream::fsize_max;
static long long lim(stdex::stream::fsize_t x) { return x == nolimit ? -1 : (long long)x; }
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<vf::dev> d; std::unique_ptr<limiter> l; window* w = nullptr; size_t sent = 0; long long pos = 0;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			d.reset(new vf::dev(&a[5]));
			auto L = [&](long long x) { return x < 0 ? nolimit : (stdex::stream::fsize_t)x; };
			if (a[0]) l.reset(w = new window(*d, a[1], L(a[2]), a[3], L(a[4]))); else l.reset(new limiter(*d, L(a[2]), L(a[4])));
			event("start", a, {}); continue;
		}
		auto st = [&] { return (long long)(int)l->state(); };
		if (op == "read") {
			std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
			size_t n = l->read(p.get(), (size_t)a[0]);
			r = { (long long)n, st(), lim(l->read_limit), w ? (long long)w->read_offset : 0 }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
		}
		else if (op == "skip") { l->skip((stdex::stream::fsize_t)a[0]); r = { st(), lim(l->read_limit), w ? (long long)w->read_offset : 0 }; }
		else if (op == "write") {
			std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
			for (long long i = 0; i < a[0]; ++i) p[i] = pat(4, pos + i);
			size_t n = l->write(p.get(), (size_t)a[0]); pos += n;
			r = { (long long)n, st(), lim(l->write_limit), w ? (long long)w->write_offset : 0 };
			for (; sent < d->got.size(); ++sent) r.push_back(d->got[sent]);
		}
		else if (op == "flush" || op == "close") {
			auto f = d->flushes, c = d->closes;
			if (op == "flush") l->flush(); else l->close();
			r = { st(), d->flushes - f, d->closes - c };
		}
		else if (op == "rest") r = { d->rpos };
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
