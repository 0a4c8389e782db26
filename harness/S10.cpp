// zlib driver. start 0 capacity level block chunk(device takes at most) | start 1 fin chunk block content..
#include <stdex/zlib.hpp>
#include "streams.hpp"
using namespace stdex; using vf::ints; using vf::event;
struct tape : public stream::basic {
	std::vector<uint8_t> d; size_t p = 0, chunk = 0; bool fails = false; long long cap = -1;
	size_t read(void* data, size_t length) override {
		if (!length) { m_state = stream::state_t::ok; return 0; }
		size_t n = std::min(length, d.size() - p); if (chunk) n = std::min(n, chunk);
		if (!n) { m_state = fails ? stream::state_t::fail : stream::state_t::eof; return 0; }
		memcpy(data, d.data() + p, n); p += n; m_state = stream::state_t::ok; return n;
	}
	size_t write(const void* data, size_t length) override {
		size_t n = length; if (cap >= 0) n = std::min<size_t>(n, (size_t)std::max<long long>(0, cap - (long long)d.size()));
		d.insert(d.end(), (const uint8_t*)data, (const uint8_t*)data + n); m_state = n < length ? stream::state_t::fail : stream::state_t::ok; return n;
	}
};
static void scenario(const vf::scenario_t& s)
{
	tape t; std::unique_ptr<zlib_writer> w; std::unique_ptr<zlib_reader> rd;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			if (a[0] == 0) { t.cap = a[1]; w.reset(new zlib_writer(t, (int)a[2], (uInt)a[3])); event("start", { 0, a[1] }, {}); }
			else {
				t.fails = a[1] == 2; t.chunk = (size_t)a[2]; t.d.assign(a.begin() + 4, a.end()); rd.reset(new zlib_reader(t, (uInt)a[3]));
				ints e = { 1, a[1] }; e.insert(e.end(), a.begin() + 4, a.end()); event("start", e, {});
			}
			continue;
		}
		if (op == "write" || op == "fill") {
			ints e; if (op == "write") e = a; else for (long long i = 0; i < a[0]; ++i) e.push_back(a[1] + i % a[2]);
			std::unique_ptr<uint8_t[]> p(new uint8_t[e.size()]); for (size_t i = 0; i < e.size(); ++i) p[i] = (uint8_t)e[i];
			try { size_t n = w->write(p.get(), e.size()); r = { (long long)n, (long long)(int)w->state() }; } catch (const std::exception&) { r = { -99 }; }
			event("write", e, r);
		}
		else if (op == "destroy") {
			try { auto p = w.release(); p->~zlib_writer(); r = { 0 }; } catch (const std::exception&) { r = { -99 }; }
			event("destroy", ints(t.d.begin(), t.d.end()), r);
		}
		else if (op == "read") {
			std::unique_ptr<uint8_t[]> p(new uint8_t[a[0]]);
			try { size_t n = rd->read(p.get(), (size_t)a[0]); r = { (long long)n, (long long)(int)rd->state() }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]); } catch (const std::exception&) { r = { -99 }; }
			event("read", a, r);
		}
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5, 60); }
