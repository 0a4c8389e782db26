// Diagnostic output: what reaches stdout and stderr in a program built with diagnostics.
#include "common.hpp"
#include <inttypes.h>
#include <unistd.h>
#include <memory>
#include <string>
#include <stdex/string.hpp> // no assertions are implemented for this system
#undef NDEBUG
#include <stdex/debug.hpp>
using vf::ints; using vf::event;
struct channel {
	FILE* f; const char* name;
	void begin() { f = freopen(name, "w", f); }   // of no width yet
	std::string end() { fflush(f); std::string s; if (FILE* g = fopen(name, "r")) { for (int c; (c = getc(g)) != EOF;) s += (char)c; fclose(g); } return s; }
};
template <class T> static void say(int ch, int style, int n, const std::string& u)
{
	std::basic_string<T> s(u.begin(), u.end()), f; const char* F[] = { "%s", "%d: %s\n", "%s%c%%\n", "[%5d]", "%s" };
	for (const char* c = F[style]; *c; ++c) { if (*c == 's' && sizeof(T) > 1) f += (T)'l'; f += (T)*c; }
	switch (style) {
	case 0: ch ? stdex::err::printf(f.c_str(), s.c_str()) : stdex::diag::printf(f.c_str(), s.c_str()); break;
	case 1: ch ? stdex::err::printf(f.c_str(), n, s.c_str()) : stdex::diag::printf(f.c_str(), n, s.c_str()); break;
	case 2: ch ? stdex::err::printf(f.c_str(), s.c_str(), 'z') : stdex::diag::printf(f.c_str(), s.c_str(), 'z'); break;
	case 3: ch ? stdex::err::printf(f.c_str(), n) : stdex::diag::printf(f.c_str(), n); break;
	default: for (auto& c : s) if (c == '%') c = 'p'; ch ? stdex::err::printf(s.c_str()) : stdex::diag::printf(s.c_str());
	}
}
static void scenario(const vf::scenario_t& sc)
{
	channel c[2] = { { stdout, "out" }, { stderr, "err" } };
	char old[4096]; if (!getcwd(old, sizeof old)) old[0] = 0;
	char dir[] = "/tmp/vf-t07d-XXXXXX"; if (!mkdtemp(dir) || chdir(dir)) abort();
	for (auto& o : sc.ops) {
		auto& a = o.a; auto& op = o.name;
		if (op == "start") { event("start", a, {}); continue; }
		c[0].begin(); c[1].begin();
		if (op == "say") {
			for (size_t i = 0; i + 3 < a.size();) { size_t n = (size_t)a[i + 3]; std::string u; for (size_t j = 0; j < n; ++j) u += (char)a[i + 4 + j];
				a[0] & 1 ? say<wchar_t>((int)a[i] >> 1, (int)a[i + 1], (int)a[i + 2], u) : say<char>((int)a[i] >> 1, (int)a[i + 1], (int)a[i + 2], u); i += 4 + n; }
			auto x = c[0].end(), y = c[1].end(); ints r = { (long long)x.size() }; for (auto k : x) r.push_back((unsigned char)k); for (auto k : y) r.push_back((unsigned char)k);
			event("say", a, r);
		} else {   // bench: how long, name; -> shortest, longest it took, name's length, name, text
			using clk = std::chrono::high_resolution_clock;
			std::string u; for (size_t j = 1; j < a.size(); ++j) u += (char)a[j];
			auto t0 = clk::now(); std::unique_ptr<stdex::benchmark> b(new stdex::benchmark(u.c_str())); auto t1 = clk::now();
			while (clk::now() - t1 < std::chrono::microseconds(a[0])) ;
			auto t2 = clk::now(); b.reset(); auto t3 = clk::now();
			auto ns = [](clk::duration d) { auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return (long long)(n < 0 ? 0 : n > 2000000000 ? 2000000000 : n); };
			auto x = c[0].end(), y = c[1].end(); ints r = { ns(t2 - t1), ns(t3 - t0), (long long)u.size() }; for (auto k : u) r.push_back((unsigned char)k); for (auto k : x) r.push_back((unsigned char)k);
			event("bench", r, { (long long)y.size() });
		}
	}
	c[0].f = freopen("/dev/null", "w", stdout); c[1].f = freopen("/dev/null", "w", stderr);
	(void)!chdir(old); for (auto n : { "/out", "/err" }) unlink((std::string(dir) + n).c_str()); rmdir(dir);
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5); }
