// base64 stream driver. start 0 blocks-per-line capacity | start 1 end chunk text..
#include <stdex/base64.hpp>
#include "streams.hpp"
using namespace stdex::stream; using vf::ints; using vf::event;
struct text : public basic {
	std::vector<uint8_t> d; size_t p = 0, chunk = 0; bool fails = false;
	size_t read(void* data, size_t length) override {
		if (!length) { m_state = state_t::ok; return 0; }
		size_t n = std::min(length, d.size() - p); if (chunk) n = std::min(n, chunk);
		if (!n) { m_state = fails ? state_t::fail : state_t::eof; return 0; }
		memcpy(data, d.data() + p, n); p += n; m_state = state_t::ok; return n;
	}
};
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<vf::dev> d; text t; std::unique_ptr<stdex::base64_writer> w; std::unique_ptr<stdex::base64_reader> rd; size_t sent = 0;
	auto sink = [&](ints& r) { for (; sent < d->got.size(); ++sent) r.push_back(d->got[sent]); };
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			if (a[0] == 0) { long long p[6] = { 0, 1, 0, a[2], 1, 0 }; d.reset(new vf::dev(p)); w.reset(new stdex::base64_writer(*d, a[1] == 19 ? 19 : (size_t)a[1])); }
			else { t.fails = a[1] == 2; t.chunk = (size_t)a[2]; t.d.assign(a.begin() + 3, a.end()); rd.reset(new stdex::base64_reader(t)); }
			event("start", a, {}); continue;
		}
		if (op == "write") {
			if (!w) continue;
			std::unique_ptr<uint8_t[]> p(new uint8_t[a.size()]); std::copy(a.begin(), a.end(), p.get());
			size_t n = w->write(p.get(), a.size());
			r = { (long long)n, (long long)(int)w->state(), (long long)a.size() }; r.insert(r.end(), a.begin(), a.end()); sink(r);
			event("write", r, {}); continue;
		}
		if (op == "destroy") { if (!w) continue; w.reset(); sink(r); event("destroy", r, {}); continue; }
		if (op == "read") {
			if (!rd) continue;
			std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
			size_t n = rd->read(p.get(), (size_t)a[0]);
			r = { (long long)n, (long long)(int)rd->state() }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
			event("read", a, r);
		}
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
