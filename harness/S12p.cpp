// Pipes and sockets. start: kind (0 pipe, 1 sockets), wrapper of end 1, of end 2, non-blocking, buffer size
#include "common.hpp"
#include <stdex/stream.hpp>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <thread>
#include <atomic>
using namespace stdex::stream; using vf::ints; using vf::event;
static uint8_t pat(long long tag, long long i) { return (uint8_t)(1 + (tag * 7 + i) % 200); }
struct buffered : buffered_sys {
	buffered(int h, size_t n) : buffered_sys(h, n, n) {}
	int get() const { return m_source.get(); }
	bool open() const { return m_source; }
};
struct end_t {
	int w = 0; std::unique_ptr<basic_sys> y; std::unique_ptr<stdex::stream::socket> k; std::unique_ptr<buffered> b;
	basic* g() { return w == 0 ? (basic*)y.get() : w == 1 ? (basic*)k.get() : (basic*)b.get(); }
	int fd() { return w == 0 ? (y ? y->get() : -1) : w == 1 ? (k ? k->get() : -1) : b ? b->get() : -1; }
	bool open() { return g() && fd() != -1; }
};
static void scenario(const vf::scenario_t& s)
{
	signal(SIGPIPE, SIG_IGN);
	end_t e[3]; std::vector<std::unique_ptr<basic_sys>> held[3]; long long kind = 0; bool nb = false; size_t size = 4;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			int p[2]; kind = a[0];
			if (kind == 0) { if (pipe(p)) _exit(3); std::swap(p[0], p[1]); fcntl(p[0], F_SETPIPE_SZ, 4096); }
			else if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(3);
			nb = a[3] == 1; size = a.size() > 4 ? (size_t)a[4] : 4;
			for (int i = 1; i <= 2; ++i) {
				if (nb) fcntl(p[i - 1], F_SETFL, fcntl(p[i - 1], F_GETFL) | O_NONBLOCK);
				e[i].w = (int)a[i];
				if (e[i].w == 0) e[i].y.reset(new basic_sys(p[i - 1])); else if (e[i].w == 1) e[i].k.reset(new stdex::stream::socket(p[i - 1])); else e[i].b.reset(new buffered(p[i - 1], size));
			}
			event("start", { a[0], a[1], a[2], a[3] }, {}); continue;
		}
		if (op == "make") {
			stdex::stream::socket t(a[1] ? AF_UNIX : -1, SOCK_STREAM, 0); event("make", a, { (int)t.state(), (bool)t }); continue;
		}
		long long k = a[0], j = 3 - k; end_t& x = e[k]; basic* g = x.g();
		if (op == "release") { long long n = (long long)held[k].size(); if (!n) continue; held[k].clear(); event("release", { k, n }, {}); continue; }
		if (!g) continue;
		auto st = [&] { return (long long)(int)g->state(); };
		auto wait = [&](end_t& y) { int n = 0; ioctl(y.fd(), FIONREAD, &n); return n; };
		if ((x.w == 2 || e[j].w == 2) && (op == "hold")) continue;
		try {
			if (op == "write" || op == "big") {
				if (x.w == 2 && (!x.open() || !e[j].open() || (kind == 0 && k == 2))) continue;    // a buffer tells later
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[2]]); for (long long i = 0; i < a[2]; ++i) p[i] = pat(a[1], i);
				size_t n = g->write(p.get(), (size_t)a[2]); r = { (long long)n, st() };
				if (op == "big" || nb) { event("big", { k, a[1], a[2], (long long)n }, r); continue; }
			}
			else if (op == "read") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[1]]);
				bool peer = e[j].open() || !held[j].empty();
				if (x.open() && peer && !(kind == 0 && k == 1)) {          // it must not block
					if (x.w == 2) continue;
					if (!nb && (wait(x) < a[1] || (!a[1] && kind == 1 && !wait(x)))) continue;
				}
				size_t n = g->read(p.get(), (size_t)a[1]); r = { (long long)n, st() };
				for (size_t i = 0; i < n && i < (size_t)a[1]; ++i) r.push_back(p[i]);
			}
			else if (op == "slow_read") {
				if (!x.open() || !e[j].open() || (kind == 0 && k == 1) || nb || e[j].w == 2) continue;
				if (a[1] < a[2] && (!a[3] || !held[j].empty())) continue;
				if (x.w == 2 && !a[3]) continue;
				if (a[3] && !held[j].empty()) continue;
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[2]]); int h = e[j].fd();
				std::thread t([&] {
					for (long long i = 0; i < a[1]; ) { uint8_t b[3]; long long m = std::min<long long>(1 + i % 3, a[1] - i); for (long long q = 0; q < m; ++q) b[q] = pat(9, i + q); if (::write(h, b, (size_t)m) != m) break; i += m; std::this_thread::sleep_for(std::chrono::microseconds(40)); }
					if (a[3]) ::shutdown(h, SHUT_WR);
					if (a[3] && kind == 0) e[j].w == 0 ? e[j].y->close() : (void)0;
				});
				size_t n = g->read(p.get(), (size_t)a[2]); t.join();
				if (a[3]) { if (e[j].w == 0) e[j].y.reset(); else e[j].k.reset(); }
				r = { (long long)n, st() }; for (size_t i = 0; i < n && i < (size_t)a[2]; ++i) r.push_back(p[i]);
			}
			else if (op == "slow_write") {
				if (!x.open() || !e[j].open() || (kind == 0 && k == 2) || nb || e[j].w == 2 || x.w == 2 || wait(e[j])) continue;
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[2]]); for (long long i = 0; i < a[2]; ++i) p[i] = pat(a[1], i);
				int h = e[j].fd(); std::vector<uint8_t> got;
				std::atomic<bool> done{ false }; std::atomic<long long> want{ a[2] };
				std::thread t([&] {
					while ((long long)got.size() < want) {
						int n = 0; ioctl(h, FIONREAD, &n);
						if (!n) { if (done) break; std::this_thread::sleep_for(std::chrono::microseconds(50)); continue; }
						uint8_t b[700]; ssize_t m = ::read(h, b, sizeof b); if (m <= 0) break; got.insert(got.end(), b, b + m);
					}
				});
				size_t n = g->write(p.get(), (size_t)a[2]); done = true; t.join();
				r = { (long long)n, st() }; for (auto v : got) r.push_back(v);
			}
			else if (op == "avail") { if (!x.open() || x.w == 2 || (kind == 0 && k == 1)) continue; r = { wait(x) }; }
			else if (op == "flush") { if (!x.open()) continue; g->flush(); r = { st() }; }
			else if (op == "close") { if (x.w == 2 && !e[j].open() ) { } g->close(); r = { st(), x.open() }; }
			else if (op == "destroy") { x.y.reset(); x.k.reset(); x.b.reset(); }
			else if (op == "state") { if (x.w == 2) continue; r = { st(), x.open() }; }
			else if (op == "hold") { if (x.w != 0) continue; if (x.open()) { held[k].emplace_back(new basic_sys(*x.y)); r = { 1 }; } else { basic_sys t(*x.y); r = { (bool)t }; } }
			else if (op == "move") {
				if (x.w == 2) continue;
				if (x.w == 0) { std::unique_ptr<basic_sys> t(new basic_sys(std::move(*x.y))); if (x.y->get() != -1) r = { -1 }; basic_sys u; u = std::move(*t); x.y.reset(new basic_sys(std::move(u))); }
				else { std::unique_ptr<stdex::stream::socket> t(new stdex::stream::socket(std::move(*x.k))); if (*x.k) r = { -1 }; stdex::stream::socket u; u = std::move(*t); if (*t) r = { -2 }; x.k.reset(new stdex::stream::socket(std::move(u))); }
				event("move", a, r); event("state", { k }, { (int)x.g()->state(), x.open() }); continue;
			}
		}
		catch (const std::exception&) { r = { -99 }; }
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
