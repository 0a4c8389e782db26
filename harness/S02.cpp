// cache driver. start: block size, file size, file position, at most so many bytes per read (0: any)
// fault kind count amount: the count-th (from 0) call of that kind from now on fails
// age c a m: sets the times of the file; times: what they are; kept: what those of the source are after the cache is gone; lock, unlock: as the source gets them
// (1 write takes amount bytes and fails, 2 write takes amount bytes and succeeds, 3 read fails, 4 seek fails, 5 truncate fails, 6 flush fails)
#include "streams.hpp"
using namespace stdex::stream; using vf::ints; using vf::event; using vf::pat;
using time_point = stdex::stream::time_point;
static time_point at(long long x) { return time_point(std::chrono::seconds(x)); }
static long long since(time_point t)
{
	auto d = t.time_since_epoch(); auto n = std::chrono::duration_cast<std::chrono::seconds>(d).count(), now = std::chrono::duration_cast<std::chrono::seconds>(stdex::stream::clock::now().time_since_epoch()).count();
	return t == time_point::min() ? -2 : n > now - 3600 && n <= now + 2 ? -1 : n > 0 && n < 1000000000 && d == std::chrono::seconds(n) ? n : -3;
}
struct file_t : public basic_file {
	ints locked;
	void lock(stdex::stream::fpos_t o, stdex::stream::fsize_t n) override { locked = { 1, (long long)o, (long long)n }; m_state = o % 5 == 4 ? state_t::fail : state_t::ok; }
	void unlock(stdex::stream::fpos_t o, stdex::stream::fsize_t n) override { locked = { 2, (long long)o, (long long)n }; m_state = o % 5 == 4 ? state_t::fail : state_t::ok; }
#if SET_FILE_OP_TIMES
	time_point ctime() const override { return f.ctime(); }
	time_point atime() const override { return f.atime(); }
	time_point mtime() const override { return f.mtime(); }
	void set_ctime(time_point t) override { f.set_ctime(t); }
	void set_atime(time_point t) override { f.set_atime(t); }
	void set_mtime(time_point t) override { f.set_mtime(t); }
#else
	time_point t[3] = { stdex::stream::clock::now(), stdex::stream::clock::now(), stdex::stream::clock::now() };
	time_point ctime() const override { return t[0]; }
	time_point atime() const override { return t[1]; }
	time_point mtime() const override { return t[2]; }
	void set_ctime(time_point x) override { t[0] = x; }
	void set_atime(time_point x) override { t[1] = x; }
	void set_mtime(time_point x) override { t[2] = x; }
#endif
	memory_file f; long long chunk = 0; long long kind = 0, count = 0, amount = 0; bool hit = false;
	bool fault(int k) { if (k != kind && !(k == 1 && kind == 2)) return false; if (count-- > 0) return false; hit = true; return true; }
	size_t read(void* data, size_t length) override {
		if (fault(3)) { kind = 0; m_state = state_t::fail; return 0; }
		if (chunk) length = std::min<size_t>(length, (size_t)chunk);
		size_t n = f.read(data, length); m_state = f.state(); return n;
	}
	size_t write(const void* data, size_t length) override {
		if (fault(1)) {
			bool fails = kind == 1; kind = 0;
			size_t n = std::min<size_t>(length, (size_t)amount);
			if (n) f.write(data, n);
			m_state = fails ? state_t::fail : state_t::ok; return n;
		}
		size_t n = f.write(data, length); m_state = f.state(); return n;
	}
	void flush() override { if (fault(6)) { kind = 0; m_state = state_t::fail; return; } f.flush(); m_state = f.state(); }
	void close() override { m_state = state_t::ok; }
	stdex::stream::fpos_t seek(stdex::stream::foff_t o, seek_t how) override {
		if (fault(4)) { kind = 0; m_state = state_t::fail; return stdex::stream::fpos_max; }
		auto p = f.seek(o, how); m_state = f.state(); return p;
	}
	stdex::stream::fpos_t tell() const override { return f.tell(); }
	stdex::stream::fsize_t size() const override { return f.size(); }
	void truncate() override { if (fault(5)) { kind = 0; m_state = state_t::fail; return; } f.truncate(); m_state = f.state(); }
};
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<file_t> f; cache* c = nullptr; bool closed = false;
	auto raw = [&](bool pos) {
		ints r = { pos ? (long long)f->f.tell() : -1 }; auto p = (const uint8_t*)f->f.data(); for (size_t i = 0; i < (size_t)f->f.size(); ++i) r.push_back(p[i]);
		event("raw", r, {});
	};
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			f.reset(new file_t());
			for (long long i = 0; i < a[1]; ++i) { uint8_t b = pat(3, i); f->f.write(&b, 1); }
			f->f.seek(a[2], seek_t::beg); f->chunk = a[3];
			c = new cache(*f, (size_t)a[0]);
			event("start", a, {}); event("config", { SET_FILE_OP_TIMES }, {}); continue;
		}
		if (op == "fault") { f->kind = a[0]; f->count = a[1]; f->amount = a[2]; continue; }
		if (!c || (closed && op != "destroy")) continue;
		auto st = [&] { return (long long)(int)c->state(); };
		bool clean = false; f->hit = false;
		try {
			if (op == "read") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
				size_t n = c->read(p.get(), (size_t)a[0]);
				r = { (long long)n, st() }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
			}
			else if (op == "write") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
				for (long long i = 0; i < a[0]; ++i) p[i] = pat(a[1], i);
				size_t n = c->write(p.get(), (size_t)a[0]); r = { (long long)n, st() };
			}
			else if (op == "remainder") { auto v = c->read_remainder(); r = { (long long)v.size(), st() }; for (auto x : v) r.push_back(x); }
			else if (op == "seek") { auto p = c->seek((stdex::stream::foff_t)a[0], a[1] == 0 ? seek_t::beg : a[1] == 1 ? seek_t::cur : seek_t::end); r = { (long long)p, st() }; }
			else if (op == "skip") { c->skip((stdex::stream::fsize_t)a[0]); r = { st() }; }
			else if (op == "tell") r = { (long long)c->tell(), (long long)c->size() };
			else if (op == "truncate") { c->truncate(); r = { st() }; }
			else if (op == "lock" || op == "unlock") {
				f->locked.clear();
				if (op == "lock") c->lock(a[0], a[1]); else c->unlock(a[0], a[1]);
				r = { st() }; r.insert(r.end(), f->locked.begin(), f->locked.end());
			}
			else if (op == "age") { c->set_ctime(at(a[0])); c->set_atime(at(a[1])); c->set_mtime(at(a[2])); }
			else if (op == "times") r = { since(c->ctime()), since(c->atime()), since(c->mtime()) };
			else if (op == "flush") { c->flush(); r = { st() }; clean = c->ok(); }
			else if (op == "close") { c->close(); r = { st() }; clean = c->ok(); closed = true; }
			else if (op == "destroy") { auto p = c; c = nullptr; delete p; r = { 0 }; clean = true; }
		}
		catch (const std::exception&) { r = { -99 }; }
		if (f->hit) event("hit", {}, {});
		bool pos = op == "destroy" && !closed && !f->hit;
		event(op.c_str(), a, r);
		if (clean) raw(pos);
		if (op == "destroy") { if (!closed && !f->hit) event("kept", {}, { since(f->ctime()), since(f->atime()), since(f->mtime()) }); return; }
	}
	if (c && closed) ::operator delete(c);
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
