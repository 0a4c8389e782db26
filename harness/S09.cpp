// hash driver. start: 1 crc, 2 md5, 3 sha1
#include <stdex/hash.hpp>
#include "streams.hpp"
#include <sys/mman.h>
using namespace stdex; using vf::ints; using vf::event;
struct dev : public stream::basic {
	size_t n = 0; long long st = 0, tag = 0; std::vector<uint8_t> got;
	size_t read(void* data, size_t length) override { for (size_t i = 0; i < n; ++i) ((uint8_t*)data)[i] = vf::pat(tag, i); m_state = (stream::state_t)st; return n; }
	size_t write(const void* data, size_t length) override { got.assign((const uint8_t*)data, (const uint8_t*)data + n); m_state = (stream::state_t)st; return n; }
};
static void value(ints& r, uint32_t v) { r.push_back(v >> 16); r.push_back(v & 0xffff); }
template <size_t N> struct raw { uint8_t b[N]; };
template <class T> static void value(ints& r, const T& v) { for (auto x : v.data8) r.push_back(x); }
template <class T> static void values(ints& r, const ints& a) {
	size_t n = (size_t)a[0]; T x, y, z; for (size_t i = 0; i < n; ++i) { x.data8[i] = (uint8_t)a[2 + i]; y.data8[i] = (uint8_t)a[2 + n + i]; } memset(&z, 0x5a, sizeof z);
	r = { x == y, x != y };
	stream::memory_file f; f << x; size_t len = (size_t)f.tell(); for (size_t i = 0; i < len; ++i) r.push_back(((const uint8_t*)f.data())[i]);
	if (a[1] != 1) { f.seekbeg(n - 1); }
	else f.seekbeg(0);
	f >> z; r.push_back((long long)(int)f.state()); if (f.ok()) value(r, z);
}
template <class H, class V> static void session(const vf::scenario_t& s)
{
	std::unique_ptr<H> h(new H());
	for (size_t k = 1; k < s.ops.size(); ++k) {
		auto& a = s.ops[k].a; auto& op = s.ops[k].name; ints r;
		if (op == "hash") { std::unique_ptr<uint8_t[]> p(a.empty() ? nullptr : new uint8_t[a.size()]); for (size_t i = 0; i < a.size(); ++i) p[i] = (uint8_t)a[i]; h->hash(p.get(), a.size()); }
		else if (op == "clear") h->clear();
		else if (op == "final") {
			h->finalize(); r.push_back((long long)H::size()); value(r, h->data());
			const basic_hash<V>& c = *h; ints q; value(q, (const V&)c); if (!std::equal(q.begin(), q.end(), r.begin() + 1)) r.push_back(-1);
		}
		else if (op == "resume") { if constexpr (std::is_same<H, crc32_hash>::value) { h->finalize(); auto v = h->data(); value(r, v); h.reset(new H(v)); } }
		else if (op == "sread") {
			dev d; d.n = (size_t)a[1]; d.st = a[2]; d.tag = a[3]; stream_hasher<V> x(*h, d); std::unique_ptr<uint8_t[]> p(new uint8_t[a[0]]); memset(p.get(), 0, a[0]);
			size_t n = x.read(p.get(), (size_t)a[0]); r = { (long long)n, (long long)(int)x.state() }; for (long long i = 0; i < a[1]; ++i) r.push_back(p[i]);
		}
		else if (op == "swrite") {
			dev d; d.n = (size_t)a[1]; d.st = a[2]; stream_hasher<V> x(*h, d); std::unique_ptr<uint8_t[]> p(new uint8_t[a[0]]); for (long long i = 0; i < a[0]; ++i) p[i] = vf::pat(a[3], i);
			size_t n = x.write(p.get(), (size_t)a[0]); r = { (long long)n, (long long)(int)x.state() }; for (auto b : d.got) r.push_back(b);
		}
		else if (op == "value") { if (a[0] == 16) values<md5_t>(r, a); else if (a[0] == 20) values<sha1_t>(r, a); else values<sha256_t>(r, a); }
		else if (op == "zeros") {
			size_t n = ((size_t)a[0] << 20) + (size_t)a[1];
			void* p = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); madvise(p, n, MADV_HUGEPAGE);
			h->hash(p, n); munmap(p, n);
		}
		event(op.c_str(), a, r);
	}
}
static void scenario(const vf::scenario_t& s)
{
	event("start", s.ops[0].a, {});
	switch (s.ops[0].a[0]) { case 1: session<crc32_hash, crc32_t>(s); break; case 2: session<md5_hash, md5_t>(s); break; case 3: session<sha1_hash, sha1_t>(s); break; }
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 100, 300); }
