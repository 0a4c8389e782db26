// Common driver code: reads a script of scenarios, executes it, records an ndjson trace.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vf {
	using ints = std::vector<long long>;
	struct op_t { std::string name; ints a; };
	struct scenario_t { long long id; std::vector<op_t> ops; };

	inline int trace_fd = -1;
	inline std::string out;
	inline long long cur = -1;

	inline void flush_trace()
	{
		size_t off = 0;
		while (off < out.size()) {
			ssize_t n = ::write(trace_fd, out.data() + off, out.size() - off);
			if (n <= 0) break;
			off += n;
		}
		out.clear();
	}
	inline void put(std::string& s, const ints& v)
	{
		s += '[';
		char b[32];
		for (size_t i = 0; i < v.size(); ++i) {
			snprintf(b, sizeof b, i ? ",%lld" : "%lld", v[i]);
			s += b;
		}
		s += ']';
	}
	inline void event(const char* op, const ints& a, const ints& r)
	{
		out += "{\"op\":\""; out += op; out += "\",\"a\":"; put(out, a);
		out += ",\"r\":"; put(out, r);
		char b[40]; snprintf(b, sizeof b, ",\"i\":%lld}\n", cur); out += b;
		if (out.size() > (1 << 20)) flush_trace();
	}
	// Last words. Runs in a dying process: only appends and writes.
	inline bool dying = false;
	inline void die(const char* what)
	{
		if (dying) _exit(77);
		dying = true;
		event(what, {}, {});
		flush_trace();
	}
	inline void on_signal(int sig)
	{
		die(sig == SIGPROF || sig == SIGALRM ? "hang" : "crash");
		_exit(78);
	}

	inline std::vector<scenario_t> load(const char* path)
	{
		std::vector<scenario_t> res;
		std::ifstream f(path);
		std::string line;
		while (std::getline(f, line)) {
			if (line.empty()) continue;
			std::istringstream is(line);
			std::string name; is >> name;
			if (name == "S") { scenario_t s; is >> s.id; res.push_back(s); continue; }
			op_t o; o.name = name;
			long long x; while (is >> x) o.a.push_back(x);
			res.back().ops.push_back(std::move(o));
		}
		return res;
	}
	inline void arm(double cpu, int wall)
	{
		struct itimerval t = {};
		t.it_value.tv_sec = (long)cpu; t.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6);
		setitimer(ITIMER_PROF, &t, nullptr);
		alarm(wall);
	}
	inline const char* scratch() { const char* s = getenv("VF_SCRATCH"); return s ? s : "/tmp"; }
	// Pseudo-data: the byte number i of payload `tag`
	inline uint8_t pat(long long tag, long long i) { return (uint8_t)(1 + ((tag * 7 + i) % 200)); }
}

#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf {
	template <class F>
	int run(int argc, char** argv, F scenario, double cpu = 10, int wall = 120)
	{
		if (argc < 3) return 2;
		auto scen = load(argv[1]);
		trace_fd = ::open(argv[2], O_WRONLY | O_APPEND | O_CREAT, 0600);
		size_t skip = argc > 3 ? (size_t)atoll(argv[3]) : 0;
#if __has_feature(address_sanitizer)
		__sanitizer_set_death_callback([] { die("crash"); });
		for (int s : { SIGPROF, SIGALRM, SIGABRT }) signal(s, on_signal);
#else
		for (int s : { SIGPROF, SIGALRM, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) signal(s, on_signal);
#endif
		for (size_t i = skip; i < scen.size(); ++i) {
			cur = scen[i].id;
			arm(cpu, wall);
			scenario(scen[i]);
			flush_trace();
		}
		arm(0, 0);
		flush_trace();
		_exit(0);
	}
}
