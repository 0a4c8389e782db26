// Owners driver: handles, lent pointers, borrowed objects, scopes.
#include "common.hpp"
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <netdb.h>
#include <stdex/socket.hpp>
#include <stdex/locale.hpp>
#include <stdex/curl.hpp>
#include <map>
#include <memory>
#include <algorithm>
#include <stdex/system.hpp>
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
using vf::ints; using vf::event;
static std::map<long long, long long> open_; static ints closed; static long long next_ = 1; static bool fail_dup = false; static long long bad = 0;
template <class T, T INV, int K> struct TR {
	static inline const T invalid_handle = INV;
	static void close(T h) { closed.push_back(K * (long long)h); if (!open_.erase(K * (long long)h)) ++bad; }
	static T duplicate(T h, bool = false) { if (fail_dup) throw std::runtime_error("dup"); auto i = open_.find(K * (long long)h); if (i == open_.end()) { ++bad; return INV; } open_[next_] = i->second; return (T)(K * next_++); }
};
// the libraries' own functions, replaced by such that only record what they were given
static ints freed; static long long lib = 0, lib_fail = 0; static std::map<const void*, long long> things;
static bool gone(const void* p) { auto i = things.find(p); if (i == things.end()) return false; freed.push_back(i->second); things.erase(i); return true; }
extern "C" {
	const char* curl_easy_strerror(CURLcode n) { static char s[3]; s[0] = 'E'; s[1] = (char)('0' + n % 10); s[2] = 0; return s; }
	void curl_easy_cleanup(CURL* p) { if (!gone(p)) ++bad; free(p); }
	void curl_slist_free_all(struct curl_slist* p) { if (!gone(p)) ++bad; free(p); }
	CURLcode curl_global_init(long) { if (lib_fail) return (CURLcode)lib_fail; ++lib; return CURLE_OK; }
	void curl_global_cleanup(void) { --lib; freed.push_back(things[&lib]); things.erase(&lib); }
	void freeaddrinfo(struct addrinfo* p) { if (!gone(p)) ++bad; free(p); }
	void freelocale(locale_t l) noexcept { if (gone(l)) free(l); else ((void (*)(locale_t))dlsym(RTLD_NEXT, "freelocale"))(l); }
}
template <class T> static T* thing(long long v) { void* p = calloc(1, 64); things[p] = v; return (T*)p; }
struct belongings { stdex::curl c; stdex::curl_slist l; stdex::addrinfo a; stdex::locale o; std::unique_ptr<stdex::curl_initializer> i; };
template <class P, class T> static void belong(P& p, const std::string& op, const ints& a, ints& r)
{
	using V = typename std::remove_reference<P>::type;
	if (op == "take") p = V(thing<T>(a[1]));
	else if (op == "drop") p.reset();
	else if (op == "pass") { V q(std::move(p)); if (p) ++bad; V w; w = std::move(q); }
	else if (op == "keep") { auto q = p.release(); r.push_back(q ? things[q] : 0); if (q) { things.erase(q); free((void*)q); } }
}
static int fds() { int n = 0; for (int i = 3; i < 64; ++i) { struct stat t; n += !fstat(i, &t) && S_ISREG(t.st_mode) && !t.st_nlink; } return n; }   // only those without names: ours
static int fd_of(long long v) { int f = memfd_create("x", 0); if (f < 0 || ftruncate(f, v)) ++bad; return f; }
static void limit(bool on) { struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = on ? 0 : l.rlim_max < 1024 ? l.rlim_max : 1024; setrlimit(RLIMIT_NOFILE, &l); }
static long long live = 0;
struct E { long long v; E(long long x = 0) : v(x) { ++live; } E(const E&) = delete; virtual ~E() { --live; v = -1; } };
struct D : E { using E::E; };
template <class P, class M> static void lend(P& p, const ints& a, ints& r, M make, void (*kill)(E*))
{
	long long seen = -9;
	auto look = [&](E** q) { seen = *q ? (*q)->v : 0; if (p) ++bad; if (a[1] == 1 || a[1] == 2) { if (*q) kill(*q); *q = nullptr; } if (a[1] == 1) *q = make(a[3]); if (a[1] == 3) throw std::runtime_error("callee"); };
	auto look2 = [&](E*& q) { look(&q); };
	try {
		switch (a[2]) {
		case 0: look(stdex::get_ptr(p)); break;
		case 1: look2(stdex::get_ptr(p)); break;
		case 2: { auto h = stdex::get_ptr(p); look(h); if (p) ++bad; } break;
		case 3: { auto h = stdex::get_ptr(p); auto g = std::move(h); look2(g); if (p) ++bad; } break;
		}
	} catch (const std::runtime_error&) {}
	r = { seen, p ? p.get()->v : 0, live };
}
struct cell { long long* p; cell(long long* x) : p(x) {} cell(const cell& o) : p(o.p) {} cell(cell&& o) noexcept : p(o.p) { o.p = nullptr; } };
template <class S> static void scope(const ints& a, ints& r, long long runs)
{
	ints log; long long done = 0;
	auto body = [&] { if (a[0] == 2) throw 1; log.push_back(2); };
	auto init = [&] { log.push_back(1); if (a[0] == 1) throw 1; };
	std::string tag(40, 'x');                             // the action holds what it needs
	try {
		if (a[1] == 0) { stdex::scoped_executor e([&] { init(); }, [&log, &done, tag, n = std::make_shared<int>(3)] { ++done; log.push_back(tag == std::string(40, 'x') ? *n : -3); }); volatile char junk[256]; for (auto& j : junk) j = 1; body(); }
		else if (a[1] == 1) { auto i = [&] { init(); }; auto d = [&] { ++done; log.push_back(3); }; stdex::scoped_executor<decltype(i)&, decltype(d)&> e(i, d); body(); }
		else { auto d = [&] { ++done; log.push_back(3); }; stdex::scoped_executor e([&] { init(); }, std::move(d)); body(); }
	} catch (int) {}
	if (done > 1) ++bad;
	r = log; r.push_back(a[1]); (void)runs;
}
template <class O> static void handles(const vf::scenario_t& s, int K, bool real)
{
	constexpr bool dup = std::is_base_of<stdex::sys_object, O>::value || !std::is_base_of<stdex::socket, O>::value; int base = fds(); belongings g; std::unique_ptr<O> x[4]; std::unique_ptr<E> p[3]; std::unique_ptr<E[]> q[3];
	auto res = [&](long long h) { return h ? open_.count(h) ? open_[h] : -7 : 0; };
	for (size_t k = 1; k < s.ops.size(); ++k) {
		auto& o = s.ops[k]; auto& a = o.a; auto& op = o.name; ints r; long long st = 0; closed.clear();
		auto val = [&](O& v) { return v ? K * (long long)v.get() : 0; };
		bool two = op == "copyc" || op == "copya" || op == "movec" || op == "movea", free_ = op == "open" || op == "none" || op == "copyc" || op == "movec";
		bool hand = two || free_ || op == "close" || op == "del" || op == "test";
		if (hand) {
			if (!dup && op.compare(0, 4, "copy") == 0) continue;
			if (free_ ? !!x[a[0]] : !x[a[0]]) continue; if (two && !x[a[1]]) continue;
			try {
				if (op == "open") { if (real) x[a[0]].reset(new O(fd_of(a[1]))); else { open_[next_] = a[1]; x[a[0]].reset(new O((decltype(x[0]->get()))(K * next_++))); } }
				else if (op == "none") x[a[0]].reset(new O());
				else if (op == "copyc") { if constexpr (dup) { fail_dup = a[2]; if (real && a[2]) limit(true); x[a[0]].reset(new O(*(const O*)x[a[1]].get())); } }
				else if (op == "copya") { if constexpr (dup) { fail_dup = a[2]; if (real && a[2]) limit(true); *x[a[0]] = *(const O*)x[a[1]].get(); } }
				else if (op == "movec") x[a[0]].reset(new O(std::move(*x[a[1]])));
				else if (op == "movea") *x[a[0]] = std::move(*x[a[1]]);
				else if (op == "close") x[a[0]]->close();
				else if (op == "del") x[a[0]].reset();
			} catch (const std::runtime_error&) { st = -99; }
			fail_dup = false; if (real) limit(false);
			if (op == "test") r = { *x[a[0]] ? 1 : 0 };
			else if (real) {
				r = { st, fds() - base };
				for (int i = 1; i < 4; ++i) { struct stat t; r.push_back(!x[i] ? -2 : !*x[i] ? 0 : fstat((int)x[i]->get(), &t) ? -7 : (long long)t.st_size); }
			}
			else {
				std::sort(closed.begin(), closed.end()); r = { st }; r.insert(r.end(), closed.begin(), closed.end()); r.push_back(-1);
				for (int i = 1; i < 4; ++i) if (x[i]) { r.push_back(val(*x[i])); r.push_back(res(val(*x[i]))); } else r.push_back(-2);
			}
		}
		else if (op == "lend") { if (a[0] == 1) lend(p[1], a, r, [](long long v) { return (E*)new D(v); }, [](E* e) { delete e; }); else lend(q[2], a, r, [](long long v) { auto e = new E[1]; e->v = v; return e; }, [](E* e) { delete[] e; }); }
		else if (op == "reset") { if (a[0] == 1) p[1].reset(); else q[2].reset(); r = { 0, 0, live }; }
		else if (op == "borrow") {
			long long n = live; E* e = new D(7); { auto s1 = stdex::make_shared_no_delete(e); auto s2 = s1; std::shared_ptr<const E> s3 = s2; s1.reset(); r = { s3->v }; if (live != n + 1) ++bad;
				std::unique_ptr<E, stdex::no_delete<E>> u = std::unique_ptr<D, stdex::no_delete<D>>((D*)e); if (u->v != 7) ++bad;
				std::unique_ptr<E[], stdex::no_delete<E[]>> w(e); w.reset(); }
			if (live != n + 1 || e->v != 7) ++bad; delete e; r.push_back(live);
		}
		else if (op == "scope") scope<int>(a, r, 0);
		else if (op == "take" || op == "drop" || op == "pass" || op == "keep") {
			freed.clear();
			switch (a[0]) {
			case 1: belong<stdex::curl, CURL>(g.c, op, a, r); break;
			case 2: belong<stdex::curl_slist, struct ::curl_slist>(g.l, op, a, r); break;
			case 3: belong<stdex::addrinfo, struct ::addrinfo>(g.a, op, a, r); break;
			case 4: belong<stdex::locale, stdex::_locale_t_ref>(g.o, op, a, r); break;
			default:
				g.i.reset(); if (lib) ++bad; if (op == "keep") { r = freed.empty() ? ints{ 0 } : freed; freed.clear(); }
				if (op == "take") { things[&lib] = a[1]; g.i.reset(new stdex::curl_initializer(3)); if (lib != 1) ++bad; }
			}
			r.insert(r.end(), freed.begin(), freed.end());
		}
		else if (op == "failed") { long long n = lib; lib_fail = a[0]; try { stdex::curl_initializer i(3); r = { 0 }; } catch (const stdex::curl_runtime_error& e) { r = { -99, (long long)e.number() }; } lib_fail = 0; if (lib != n) ++bad; }
		else if (op == "liberr") {
			std::string m; for (size_t i = 2; i < a.size(); ++i) m += (char)a[i];
			auto tell = [&](const stdex::curl_runtime_error& e) { r = { (long long)e.number() }; for (auto c = e.what(); *c; ++c) r.push_back((uint8_t)*c); };
			if (a[1] == 0) tell(stdex::curl_runtime_error((CURLcode)a[0])); else if (a[1] == 1) tell(stdex::curl_runtime_error((CURLcode)a[0], m)); else tell(stdex::curl_runtime_error((CURLcode)a[0], m.c_str()));
		}
		if (bad) { r.push_back(-1000 - bad); bad = 0; }
		event(op.c_str(), a, r);
	}
	g = belongings(); if (!things.empty() || lib) event("leak", { (long long)things.size(), lib, 7 }, {}); things.clear(); lib = 0;
	for (int i = 1; i < 3; ++i) { p[i].reset(); q[i].reset(); } for (auto& y : x) y.reset();
	if (real && fds() != base) event("leak", { fds(), base, 8 }, {});
	if (!open_.empty() || live || bad) event("leak", { (long long)open_.size(), live, bad }, {});
	open_.clear(); live = bad = 0; next_ = 1;
}
static void scenario(const vf::scenario_t& s)
{
	event("start", s.ops[0].a, {});
	if (s.ops[0].a.size() && s.ops[0].a[0] == 1) handles<stdex::basic_sys_object<int, TR<int, 0, 1>>>(s, 1, false);
	else if (s.ops[0].a.size() && s.ops[0].a[0] == 2) handles<stdex::sys_object>(s, 1, true);
	else if (s.ops[0].a.size() && s.ops[0].a[0] == 3) handles<stdex::socket>(s, 1, true);
	else handles<stdex::basic_sys_object<long, TR<long, -1L, 1>>>(s, 1, false);
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5); }
