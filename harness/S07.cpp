// diag_file driver. start: number of files, file size
// diverge file kind amount: in the operation that follows, the file returns something else
// (1 another count or position, 2 another state, 3 another byte, no. amount from the start)
#include "streams.hpp"
using namespace stdex::stream; using vf::ints; using vf::event; using vf::pat;
using fpos = stdex::stream::fpos_t; using foff = stdex::stream::foff_t; using fsz = stdex::stream::fsize_t;
struct file_t : public basic_file {
	memory_file f; long long kind = 0, amount = 0, calls = 0; bool hit = false;
	void state() { calls++; m_state = f.state(); if (kind == 2) { m_state = m_state == state_t::ok ? (amount % 2 ? state_t::eof : state_t::fail) : state_t::ok; hit = true; } }
	size_t read(void* data, size_t length) override {
		size_t n = f.read(data, length); state();
		if (kind == 3 && n) { ((uint8_t*)data)[std::min<size_t>(n - 1, (size_t)amount)] ^= 1; hit = true; }
		if (kind == 1) { if (n) n--; else if (length) { memset(data, 0, length); n = length; } else return n; hit = true; }
		return n;
	}
	size_t write(const void* data, size_t length) override {
		size_t n = f.write(data, length); state();
		if (kind == 1) { n = n ? n - 1 : 1; hit = true; }
		return n;
	}
	void flush() override { f.flush(); state(); }
	void close() override { f.flush(); state(); }
	fpos seek(foff o, seek_t how) override { auto p = f.seek(o, how); state(); if (kind == 1) { p++; hit = true; } return p; }
	fpos tell() const override { if (kind == 1) { const_cast<file_t*>(this)->hit = true; return f.tell() + 1; } return f.tell(); }
	fsz size() const override { if (kind == 3) { const_cast<file_t*>(this)->hit = true; return f.size() + 1; } return f.size(); }
	void lock(fpos, fsz) override { f.flush(); state(); }
	void unlock(fpos, fsz) override { f.flush(); state(); }
	void truncate() override { f.truncate(); state(); }
};
static void scenario(const vf::scenario_t& s)
{
	std::vector<std::unique_ptr<file_t>> f; std::unique_ptr<diag_file> c;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			std::vector<basic_file*> p;
			for (long long k = 0; k < a[0]; ++k) {
				f.emplace_back(new file_t()); p.push_back(f.back().get());
				for (long long i = 0; i < a[1]; ++i) { uint8_t b = pat(3, i); f[k]->f.write(&b, 1); }
				f[k]->f.seek(0, seek_t::beg);
			}
			c.reset(new diag_file(p.data(), p.size()));
			event("start", a, {}); continue;
		}
		if (op == "diverge") { if (f.size() > 1) { auto& x = *f[(size_t)a[0] % f.size()]; x.kind = a[1]; x.amount = a[2]; } continue; }
		auto st = [&] { return (long long)(int)c->state(); };
		for (auto& x : f) x->calls = 0;
		try {
			if (op == "read") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
				size_t n = c->read(p.get(), (size_t)a[0]);
				r = { (long long)n, st() }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
			}
			else if (op == "write") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
				for (long long i = 0; i < a[0]; ++i) p[i] = pat(a[1], i);
				size_t n = c->write(p.get(), (size_t)a[0]); r = { (long long)n, st() };
			}
			else if (op == "seek") { auto p = c->seek((foff)a[0], a[1] == 0 ? seek_t::beg : a[1] == 1 ? seek_t::cur : seek_t::end); r = { p == stdex::stream::fpos_max ? -1 : (long long)p, st() }; }
			else if (op == "tell") { auto p = c->tell(); auto n = c->size(); r = { p == stdex::stream::fpos_max ? -1 : (long long)p, n == stdex::stream::fsize_max ? -1 : (long long)n }; }
			else if (op == "truncate") { c->truncate(); r = { st() }; }
			else if (op == "lock") { c->lock(a[0], a[1]); r = { st() }; }
			else if (op == "unlock") { c->unlock(a[0], a[1]); r = { st() }; }
			else if (op == "flush") { c->flush(); r = { st() }; }
			else if (op == "close") { c->close(); r = { st() }; }
			else if (op == "raw") for (auto& x : f) { auto p = (const uint8_t*)x->f.data(); for (size_t i = 0; i < (size_t)x->f.size(); ++i) r.push_back(p[i]); }
		}
		catch (const std::exception&) { r = { -99 }; }
		bool hit = false;
		for (auto& x : f) { hit |= x->hit; x->kind = 0; }
		if (hit) event("hit", {}, {});
		event(op.c_str(), a, r);
		if (hit) return;
		if (f.size() && op != "raw" && op != "tell" && !(op == "seek" && r[0] == -99)) { ints n; for (auto& x : f) n.push_back(x->calls); event("applied", {}, n); }
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
