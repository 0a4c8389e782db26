// memory_file driver
// With MEMORY_RUNS_OUT (and malloc, calloc, realloc and operator new wrapped by the linker): after "fault n" the n-th (from 0) request
// for memory of the file fails, once; an event "hit" precedes the event of the operation it failed in.
#include <stdex/stream.hpp>
#include "common.hpp"
#include "streams.hpp"
using namespace stdex::stream;
using vf::ints; using vf::event; using vf::pat;
using fpos = stdex::stream::fpos_t;
using memfile = stdex::stream::memory_file;

static bool hit = false, counting = false;
#ifdef MEMORY_RUNS_OUT
static long long left = -1;
static bool fails() { if (!counting || left < 0 || left-- > 0) return false; return hit = true; }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real__Znwm(size_t); void* __real__Znam(size_t);
void* __wrap_malloc(size_t n) { return fails() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t m, size_t n) { return fails() ? nullptr : __real_calloc(m, n); }
void* __wrap_realloc(void* p, size_t n) { return n && fails() ? nullptr : __real_realloc(p, n); }
void* __wrap__Znwm(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znam(n); }
}
#endif
struct count_t { count_t() { counting = true; } ~count_t() { counting = false; } };
template <class F> static auto in(F f) -> decltype(f()) { count_t c; return f(); }
static std::vector<uint8_t> bytes(const ints& a, size_t from) { return std::vector<uint8_t>(a.begin() + from, a.end()); }
static std::vector<uint8_t> payload(long long tag, long long n) { std::vector<uint8_t> v(n); for (long long i = 0; i < n; ++i) v[i] = pat(tag, i); return v; }
static void add(ints& r, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) r.push_back(p[i]); }
static const long long BIG = 1ll << 45;
static long long pos(fpos p) { return p >= (fpos)BIG ? 1000000000ll + (long long)(p - BIG) : (long long)p; }
static foff_t off(long long x) { return x >= 1000000000ll ? BIG + (x - 1000000000ll) : x; }

template <class T> static void rdata(memfile& f, ints& r) { T d; memset((void*)&d, 0x55, sizeof d); f >> d; r.push_back((int)f.state()); add(r, (uint8_t*)&d, sizeof d); }
template <class T> static void wdata(memfile& f, long long tag, ints& r) { T d; for (size_t i = 0; i < sizeof d; ++i) ((uint8_t*)&d)[i] = pat(tag, i); in([&] { f << d; }); r.push_back((int)f.state()); }
template <class T> static void rstr(memfile& f, ints& r) { std::basic_string<T> s; f >> s; r.push_back((int)f.state()); if (f.ok()) add(r, (uint8_t*)s.data(), s.size() * sizeof(T)); }
template <class T> static void wstr(memfile& f, long long tag, long long n, bool z, ints& r) {
	std::basic_string<T> s(n, T()); auto v = payload(tag, n * sizeof(T)); memcpy(&s[0], v.data(), v.size());
	in([&] { if (z) f.write_str(s.c_str()); else f.write_str(s); });
	r.push_back((int)f.state());
}

// calls f with a value of one of the types of this size
template <class F> static void typed(long long size, long long which, F f) {
	switch (size) {
	case 1: which % 3 == 0 ? f((uint8_t)0) : which % 3 == 1 ? f((int8_t)0) : f((char)0); break;
	case 2: which % 2 ? f((int16_t)0) : f((uint16_t)0); break;
	case 4: which % 3 == 0 ? f((uint32_t)0) : which % 3 == 1 ? f((int32_t)0) : f((float)0); break;
	case 8: which % 3 == 0 ? f((uint64_t)0) : which % 3 == 1 ? f((int64_t)0) : f((double)0); break;
	}
}
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<memfile> f[3];
	std::unique_ptr<uint8_t[]> borrowed; long long which = 0;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name;
		ints r;
		if (op == "start") {
			f[2].reset(new memfile());
			switch (a[0]) {
			case 0: f[1].reset(new memfile()); break;
			case 1: f[1].reset(new memfile((size_t)a[2])); break;
			case 2: borrowed.reset(new uint8_t[a[2]]); for (long long i = 0; i < a[2]; ++i) borrowed[i] = i < a[1] ? pat(9, i) : 0xee; f[1].reset(new memfile(borrowed.get(), (size_t)a[1], (size_t)a[2])); break;
			case 3: { auto p = (uint8_t*)malloc(a[2]); for (long long i = 0; i < a[2]; ++i) p[i] = i < a[1] ? pat(9, i) : 0xee; f[1].reset(new memfile(p, (size_t)a[1], (size_t)a[2], true)); } break;
			}
			event("start", a, r);
			continue;
		}
#ifdef MEMORY_RUNS_OUT
		if (op == "fault") { left = a[0]; continue; }
		hit = false;
#endif
		long long k = a[0];
		memfile& m = *f[k];
		std::unique_ptr<memfile>& other = f[3 - k];
		auto st = [&] { return (long long)(int)m.state(); };
		try {
			if (op == "read") {
				std::unique_ptr<uint8_t[]> b(new uint8_t[a[1]]);
				size_t n = m.read(b.get(), (size_t)a[1]);
				r = { (long long)n, st() }; add(r, b.get(), std::min<size_t>(n, a[1]));
			}
			else if (op == "read_array") {
				size_t sz = a[1] * a[2];
				std::unique_ptr<uint8_t[]> b(new uint8_t[sz]);
				auto p0 = m.tell();
				size_t n = m.read_array(b.get(), (size_t)a[1], (size_t)a[2]);
				r = { (long long)n, st() }; add(r, b.get(), std::min<size_t>(sz, m.tell() - p0));
			}
			else if (op == "read_byte") { auto b = m.read_byte(); r = { b, st() }; }
			else if (op == "read_data") {
				typed(a[1], which++, [&](auto x) { rdata<decltype(x)>(m, r); });
			}
			else if (op == "read_str") { switch (a[1]) { case 1: rstr<char>(m, r); break; case 2: rstr<stdex::utf16_t>(m, r); break; case 4: rstr<wchar_t>(m, r); break; } }
			else if (op == "read_remainder") {
				auto v = in([&] { return a[1] < 0 ? m.read_remainder() : m.read_remainder((size_t)a[1]); });
				r = { (long long)v.size(), st() }; add(r, v.data(), v.size());
			}
			else if (op == "readln") { std::string l; size_t n = m.readln(l); r = { (long long)n, st() }; add(r, (const uint8_t*)l.data(), l.size()); }
			else if (op == "write") { auto v = payload(a[1], a[2]); size_t n = in([&] { return m.write(v.data(), v.size()); }); r = { (long long)n, st() }; }
			else if (op == "put") { auto v = bytes(a, 1); size_t n = in([&] { return m.write(v.data(), v.size()); }); r = { (long long)n, st() }; }
			else if (op == "write_byte") { in([&] { m.write_byte((uint8_t)a[1], (size_t)a[2]); }); r = { st() }; }
			else if (op == "write_array") { auto v = payload(a[1], a[2] * a[3]); size_t n = in([&] { return m.write_array(v.data(), (size_t)a[2], (size_t)a[3]); }); r = { (long long)n, st() }; }
			else if (op == "write_data") {
				typed(a[2], which++, [&](auto x) { wdata<decltype(x)>(m, a[1], r); });
			}
			else if (op == "write_str") { switch (a[2]) { case 1: wstr<char>(m, a[1], a[3], a[3] % 2, r); break; case 2: wstr<stdex::utf16_t>(m, a[1], a[3], a[3] % 2, r); break; case 4: wstr<wchar_t>(m, a[1], a[3], a[3] % 2, r); break; } }
			else if (op == "write_stream") {
				vf::source src(a[1], a[2], a[3] == 2, a[2] % 3 == 0 ? 0 : 7);
				size_t n = in([&] { return a[4] < 0 ? m.write_stream(src) : m.write_stream(src, (size_t)a[4]); });
				r = { (long long)n, st() };
			}
			else if (op == "copy_between") {
				size_t n = in([&] { return a[1] < 0 ? other->write_stream(m) : other->write_stream(m, (size_t)a[1]); });
				r = { (long long)n, (long long)(int)other->state(), st() };
			}
			else if (op == "seek") { auto p = a[2] == 0 && a[1] >= 0 && a[1] % 2 ? m.seekbeg(off(a[1])) : a[2] == 1 && a[1] % 2 ? m.seekcur(a[1]) : a[2] == 2 && a[1] % 2 ? m.seekend(a[1]) : m.seek(off(a[1]), (seek_t)a[2]); r = { pos(p), st() }; }
#if SET_FILE_OP_TIMES
			else if (op == "age") { auto at = [](long long x) { return stdex::stream::time_point(std::chrono::seconds(x)); }; m.set_ctime(at(a[1])); m.set_atime(at(a[2])); m.set_mtime(at(a[3])); }
			else if (op == "times") for (auto t : { m.ctime(), m.atime(), m.mtime() }) {
				auto d = t.time_since_epoch(); auto n = std::chrono::duration_cast<std::chrono::seconds>(d).count(), now = std::chrono::duration_cast<std::chrono::seconds>(stdex::stream::clock::now().time_since_epoch()).count();
				r.push_back(t == stdex::stream::time_point::min() ? -2 : n > now - 3600 && n <= now + 2 ? -1 : n > 0 && n < 1000000000 && d == std::chrono::seconds(n) ? n : -3);
			}
#endif
			else if (op == "skip") { m.skip((fsize_t)a[1]); r = { st() }; }
			else if (op == "tell") r = { pos(m.tell()), (long long)m.size(), st() };
			else if (op == "truncate") { in([&] { m.truncate(); }); r = { st() }; }
			else if (op == "reserve") { in([&] { m.reserve((size_t)a[1], a[2] != 0); }); r = { st() }; }
			else if (op == "set") {
				auto v = payload(a[2], a[3]);
				typed(a[3], which++, [&](auto x) { memcpy((void*)&x, v.data(), sizeof x); m.set((fpos)a[1], x); });
				r = { st() };
			}
			else if (op == "get") {
				typed(a[2], which++, [&](auto x) { m.get((fpos)a[1], x); add(r, (uint8_t*)&x, sizeof x); });
			}
			else if (op == "data") add(r, (const uint8_t*)m.data(), (size_t)m.size());
			else if (op == "flush") { m.flush(); r = { st() }; }
			else if (op == "close") { m.close(); r = { st() }; }
			else if (op == "copy_ctor") other.reset(in([&] { return new memfile(m); }));
			else if (op == "copy_assign") in([&] { *other = m; });
			else if (op == "move_ctor") other.reset(new memfile(std::move(m)));
			else if (op == "move_assign") *other = std::move(m);
			else if (op == "self_assign") { memfile& x = m; m = x; m = std::move(x); }
			else if (op == "save_load") {
				std::string fn = std::string(vf::scratch()) + "/mf-" + std::to_string(getpid());
				{ FILE* h = fopen(fn.c_str(), "wb"); for (long long i = 0; i < a[1]; ++i) fputc('#', h); fclose(h); }
				m.save(fn, mode_for_writing | mode_preserve_existing);
				r = { st() };
				if (a[1] % 2) in([&] { other->load(fn, mode_for_reading | mode_open_existing); }); else other.reset(new memfile(fn, mode_for_reading | mode_open_existing));
				r.push_back((int)other->state());
				FILE* h = fopen(fn.c_str(), "rb"); int c; while ((c = fgetc(h)) != EOF) r.push_back(c); fclose(h);
				unlink(fn.c_str());
			}
			else if (op == "bad_file") { // where no file is and none can be
				std::string fn = std::string(vf::scratch()) + "/none-" + std::to_string(getpid()) + "/x";
				if (a[1] == 0) m.load(fn, mode_for_reading | mode_open_existing); else m.save(fn, mode_for_writing | mode_create);
				r = { st() };
			}
			else { fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(3); }
		}
		catch (const std::exception&) { r = { -99, st() }; }
		if (hit) event("hit", { 0 }, {});
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
