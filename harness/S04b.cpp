// file_window driver. start: file size, file position, window offset, window length
#include "streams.hpp"
using namespace stdex::stream; using vf::ints; using vf::event; using vf::pat;
struct file_t : public memory_file {
	ints calls;
	void lock(stdex::stream::fpos_t o, stdex::stream::fsize_t n) override { calls = { (long long)o, (long long)n }; m_state = state_t::ok; }
	void flush() override { calls.push_back(1); m_state = (state_t)next; }
	void close() override { calls.push_back(2); m_state = (state_t)next; }
	void skip(stdex::stream::fsize_t n) override { if (next == 0) memory_file::skip(n); else m_state = (state_t)next; }
	int next = 0; // the outcome of the next skip, flush or close
	int cap = -1; // at most so many bytes, and then next is what comes of it
	size_t read(void* d, size_t n) override { if (cap < 0) return memory_file::read(d, n); n = n && cap ? memory_file::read(d, std::min<size_t>(n, (size_t)cap)) : 0; m_state = (state_t)next; return n; }
	size_t write(const void* d, size_t n) override { if (cap < 0) return memory_file::write(d, n); n = n && cap ? memory_file::write(d, std::min<size_t>(n, (size_t)cap)) : 0; m_state = (state_t)next; return n; }
	stdex::stream::fpos_t seek(stdex::stream::foff_t o, seek_t how) override { if (cap < 0) return memory_file::seek(o, how); m_state = (state_t)next; return fpos_max; }
	void unlock(stdex::stream::fpos_t o, stdex::stream::fsize_t n) override { calls = { (long long)o, (long long)n }; m_state = state_t::ok; }
};
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<file_t> f; std::unique_ptr<file_window> w;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			f.reset(new file_t());
			for (long long i = 0; i < a[0]; ++i) { uint8_t b = pat(3, i); f->write(&b, 1); }
			f->seek(a[1], seek_t::beg);
			if (a[3]) w.reset(new file_window(*f, a[2], a[3])); else if (a[2]) w.reset(new file_window(*f, a[2])); else w.reset(new file_window(*f));
			event("start", a, {}); event("opened", {}, { (long long)(int)w->state() }); continue;
		}
		auto st = [&] { return (long long)(int)w->state(); };
		try {
			if (op == "readcut" || op == "writecut") {   // the file does a part of it
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]); for (long long i = 0; i < a[0]; ++i) p[i] = op == "readcut" ? 0 : pat(7, i);
				f->cap = (int)a[1]; f->next = (int)a[2]; size_t n = op == "readcut" ? w->read(p.get(), (size_t)a[0]) : w->write(p.get(), (size_t)a[0]); f->cap = -1;
				r = { (long long)n, st() }; if (op == "readcut") for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
			}
			else if (op == "seekfail") { f->cap = 0; f->next = (int)a[2]; try { auto p = w->seek((stdex::stream::foff_t)a[0], a[1] == 0 ? seek_t::beg : a[1] == 1 ? seek_t::cur : seek_t::end); r = { p == fpos_max, st() }; } catch (const std::exception&) { r = { -99 }; } f->cap = -1; }
			else if (op == "read") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
				size_t n = w->read(p.get(), (size_t)a[0]);
				r = { (long long)n, st() }; for (size_t i = 0; i < n && i < (size_t)a[0]; ++i) r.push_back(p[i]);
			}
			else if (op == "write") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[0]]);
				for (long long i = 0; i < a[0]; ++i) p[i] = pat(a[1], i);
				size_t n = w->write(p.get(), (size_t)a[0]); r = { (long long)n, st() };
			}
			else if (op == "seek") { auto p = w->seek((stdex::stream::foff_t)a[0], a[1] == 0 ? seek_t::beg : a[1] == 1 ? seek_t::cur : seek_t::end); r = { (long long)p, st() }; }
			else if (op == "skip") { f->next = (int)a[1]; w->skip((stdex::stream::fsize_t)a[0]); r = { st() }; }
			else if (op == "tell") r = { (long long)w->tell(), (long long)w->size() };
			else if (op == "truncate") { w->truncate(); r = { st() }; }
			else if (op == "lock" || op == "unlock") {
				f->calls.clear();
				if (op == "lock") w->lock(a[0], a[1]); else w->unlock(a[0], a[1]);
				r = { st() }; r.insert(r.end(), f->calls.begin(), f->calls.end());
			}
			else if (op == "flush" || op == "close") {
				f->calls.clear(); f->next = (int)a[0];
				if (op == "flush") w->flush(); else w->close();
				r = { st() }; r.insert(r.end(), f->calls.begin(), f->calls.end());
			}
			else if (op == "raw") { auto p = (const uint8_t*)f->data(); for (size_t i = 0; i < (size_t)f->size(); ++i) r.push_back(p[i]); }
		}
		catch (const std::exception&) { r = { -99 }; }
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
