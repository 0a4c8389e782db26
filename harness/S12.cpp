// System files in a scratch directory. start: the size of each name's file, or -1
// (slots 1..3: file; slot 4: cached_file; block size a[3] for the cache)
#include "common.hpp"
#include <stdex/stream.hpp>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace stdex::stream; using vf::ints; using vf::event;
static uint8_t pat(long long tag, long long i) { return (uint8_t)(1 + (tag * 7 + i) % 200); }
static std::string root;
static std::string path(long long n) { return root + "/" + "f" + std::to_string(n); }
static void clean() { for (int n = 1; n <= 3; ++n) ::unlink(path(n).c_str()); }
static void scenario(const vf::scenario_t& s)
{
	std::unique_ptr<file> f[4]; std::unique_ptr<cached_file> c; size_t block = 0;
	char dir[] = "/tmp/vf-s12-XXXXXX"; if (!mkdtemp(dir)) _exit(3);
	root = dir;
	bool via_ctor = false;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			for (int n = 1; n <= 3; ++n)
				if (a[n - 1] >= 0) {
					int h = ::open(path(n).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
					for (long long i = 0; i < a[n - 1]; ++i) { uint8_t b = pat(n, i); if (::write(h, &b, 1) != 1) _exit(3); }
					::close(h);
				}
			block = a.size() > 3 ? (size_t)a[3] : 4; via_ctor = a.size() > 4 && a[4];
			for (int k = 1; k <= 3; ++k) f[k].reset(new file());
			event("start", a, {}); continue;
		}
		long long k = a[0];
		if (op == "disk") {
			int h = ::open(path(k).c_str(), O_RDONLY);
			bool ex = stdex::stream::file::exists(path(k)), ro = stdex::stream::file::readonly(path(k).c_str());
			r = { ex, ro };
			if (h >= 0) { uint8_t b; while (::read(h, &b, 1) == 1) r.push_back(b); ::close(h); }
			// closing a handle of the file: this process's locks are gone
			event("disk", a, r); continue;
		}
		if (op == "chmod") { ::chmod(path(k).c_str(), a[1] ? 0444 : 0644); event("chmod", a, {}); continue; }
		if (op == "locked") {
			int p[2]; if (pipe(p)) _exit(3);
			pid_t pid = fork();
			if (!pid) {
				char b[16]; int h = ::open(path(k).c_str(), O_RDWR);
				for (int i = 0; i < 16; ++i) {
					struct flock l = {}; l.l_type = F_WRLCK; l.l_whence = SEEK_SET; l.l_start = i; l.l_len = 1;
					b[i] = h >= 0 && fcntl(h, F_GETLK, &l) == 0 && l.l_type != F_UNLCK ? 1 : 0;
				}
				ssize_t w = ::write(p[1], b, 16); (void)w; _exit(0);
			}
			char b[16] = {}; ssize_t n = ::read(p[0], b, 16); (void)n; ::close(p[0]); ::close(p[1]); int x; waitpid(pid, &x, 0);
			for (int i = 0; i < 16; ++i) r.push_back(b[i]);
			event("locked", a, r); continue;
		}
		basic_file* g = k == 4 ? (basic_file*)c.get() : (basic_file*)f[k].get();
		auto open_ = [&] { return k == 4 ? (bool)*c : (bool)*f[k]; };
		auto stand = [&] { ints v = { (long long)g->tell(), (long long)g->size(), (long long)(int)g->state(), open_() }; if (k == 4 && !v[3]) v[0] = v[1] = -1; return v; };
		if (k == 4 && g && !open_() && (op == "read" || op == "write")) {   // a closed file has nothing to give or take
			uint8_t b[4] = { 1, 2, 3, 4 }; g->seek((foff_t)(a[1] % 3)); size_t n = op == "read" ? g->read(b, (size_t)(1 + a[1] % 4)) : g->write(b, (size_t)(1 + a[1] % 4));
			event("gone", a, { (long long)n, g->ok() }); continue;
		}
		if (k == 4 && op != "open" && (!g || (!open_() && op != "close" && op != "tell"))) continue;
		try {
			if (op == "open") {
				int m = (int)a[2];
				if (k == 4 && !c) { if (via_ctor) c.reset(new cached_file(path(a[1]), m, block)); else { c.reset(new cached_file(stdex::invalid_handle, state_t::ok, block)); c->open(path(a[1]), m); } g = c.get(); }
				else if (k == 4) c->open(path(a[1]).c_str(), m);
				else if (via_ctor && !*f[k] && (m >> 3 & 7) <= 4) { f[k].reset(); f[k].reset(new file(path(a[1]), m)); g = f[k].get(); }
				else f[k]->open(path(a[1]), m);
				r = stand(); 
			}
			else if (op == "read") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[1]]);
				size_t n = g->read(p.get(), (size_t)a[1]); r = { (long long)n, (int)g->state() };
				for (size_t i = 0; i < n && i < (size_t)a[1]; ++i) r.push_back(p[i]);
			}
			else if (op == "read_array") {
				size_t z = (size_t)(a[1] * a[2]); std::unique_ptr<uint8_t[]> p(new uint8_t[z]());
				auto at = g->tell();
				size_t n = g->read_array(p.get(), (size_t)a[1], (size_t)a[2]); r = { (long long)n, (int)g->state() };
				size_t m = (size_t)(g->tell() - at); for (size_t i = 0; i < m && i < z; ++i) r.push_back(p[i]);
			}
			else if (op == "remainder") { auto v = g->read_remainder(); r = { (long long)v.size(), (int)g->state() }; for (auto x : v) r.push_back(x); }
			else if (op == "write") {
				std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)a[2]]); for (long long i = 0; i < a[2]; ++i) p[i] = pat(a[1], i);
				size_t n = g->write(p.get(), (size_t)a[2]); r = { (long long)n, (int)g->state() };
			}
			else if (op == "seek") {
				auto p = a[2] == 0 ? (a[1] >= 0 && a[1] % 2 ? g->seekbeg((stdex::stream::fpos_t)a[1]) : g->seek((foff_t)a[1])) : a[2] == 1 ? g->seekcur((foff_t)a[1]) : g->seekend((foff_t)a[1]);
				r = { (long long)p, (int)g->state() };
			}
			else if (op == "skip") { g->skip((fsize_t)a[1]); r = { (int)g->state() }; }
			else if (op == "tell") r = stand();
			else if (op == "truncate") { g->truncate(); r = { (int)g->state() }; }
			else if (op == "flush") { g->flush(); r = { (int)g->state() }; }
			else if (op == "close") { g->close(); r = { (int)g->state(), open_() }; }
			else if (op == "destroy") { if (k == 4) c.reset(); else { f[k].reset(); f[k].reset(new file()); } }
			else if (op == "copy_ctor") { std::unique_ptr<file> t(new file(*f[k])); f[a[1]] = std::move(t); }
			else if (op == "copy_assign") *f[a[1]] = *f[k];
			else if (op == "move_ctor") { std::unique_ptr<file> t(new file(std::move(*f[k]))); f[a[1]] = std::move(t); }
			else if (op == "move_assign") *f[a[1]] = std::move(*f[k]);
			else if (op == "lock") { g->lock((stdex::stream::fpos_t)a[1], (fsize_t)a[2]); r = { (int)g->state() }; }
			else if (op == "unlock") { g->unlock((stdex::stream::fpos_t)a[1], (fsize_t)a[2]); r = { (int)g->state() }; }
			else if (op == "times") {   // last access: seconds, nanoseconds; last modification: the same
				using namespace std::chrono;
				if (!open_()) r = { -99 };
				else {
					auto tp = [](long long sec, long long ns) { return stdex::stream::time_point(duration_cast<stdex::stream::time_point::duration>(seconds(sec) + nanoseconds(ns))); };
					auto one = [&](bool acc) { if (acc) g->set_atime(tp(a[1], a[2])); else g->set_mtime(tp(a[3], a[4])); };
					bool first = (a[1] + a[3]) % 2 != 0; one(first); one(!first);
					struct stat b; 
					if (k == 4 ? ::stat(path(3).c_str(), &b) : ::fstat(f[k]->get(), &b)) r = { -98 };
					else {
						r = { b.st_atim.tv_sec, b.st_atim.tv_nsec, b.st_mtim.tv_sec, b.st_mtim.tv_nsec };
						if (duration_cast<seconds>(g->atime().time_since_epoch()).count() != b.st_atim.tv_sec) r.push_back(-1);
						if (duration_cast<seconds>(g->mtime().time_since_epoch()).count() != b.st_mtim.tv_sec) r.push_back(-2);
					}
				}
			}
		}
		catch (const std::exception&) { r = { -99 }; }
		event(op.c_str(), a, r);
	}
	c.reset(); for (auto& x : f) x.reset();
	clean(); ::rmdir(dir);
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
