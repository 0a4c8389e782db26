// fifo driver. After "fault n" the n-th (from 0) request for memory of the queue fails, once; an event "hit" then precedes that of the operation.
// (malloc, calloc, realloc and operator new are wrapped by the linker.)
#include "streams.hpp"
using namespace stdex::stream; using vf::ints; using vf::event; using vf::pat;
static long long left = -1; static bool hit = false, counting = false;
static bool fails() { if (!counting || left < 0 || left-- > 0) return false; return hit = true; }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real__Znwm(size_t); void* __real__Znam(size_t);
void* __wrap_malloc(size_t n) { return fails() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t m, size_t n) { return fails() ? nullptr : __real_calloc(m, n); }
void* __wrap_realloc(void* p, size_t n) { return n && fails() ? nullptr : __real_realloc(p, n); }
void* __wrap__Znwm(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znam(n); }
}
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<fifo> q; long long pos = 0;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") { q.reset(new fifo()); left = -1; event("start", a, {}); continue; }
		if (op == "fault") { left = a[0]; continue; }
		hit = false;
		auto st = [&] { return (long long)(int)q->state(); };
		if (op == "read") {
			std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
			size_t n = q->read(p.get(), (size_t)a[0]);
			r = { (long long)n, st() }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
		}
		else if (op == "read_array") {
			size_t m = (size_t)(a[0] * a[1]); std::unique_ptr<uint8_t[]> p(new uint8_t[m]);
			size_t n = q->read_array(p.get(), (size_t)a[0], (size_t)a[1]);
			r = { (long long)n, st() }; for (size_t i = 0; i < n * a[0] && i < m; ++i) r.push_back(p[i]);
		}
		else if (op == "write") {
			std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
			for (long long i = 0; i < a[0]; ++i) p[i] = pat(4, pos + i);
			counting = true; size_t n = q->write(p.get(), (size_t)a[0]); counting = false; pos += n; r = { (long long)n, st() };
		}
		else if (op == "size") r = { (long long)q->size() };
		else if (op == "skip") { q->skip((stdex::stream::fsize_t)a[0]); r = { st() }; }
		else if (op == "flush") { q->flush(); r = { st() }; }
		else if (op == "close") { q->close(); r = { st() }; }
		else if (op == "destroy") { q.reset(); event("destroy", a, r); return; }
		if (hit) event("hit", {}, {});
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
