// Identifiers driver: UUIDs, language tags, platform names, signatures.
#include "common.hpp"
#include <pwd.h>
#include <sys/utsname.h>
#include <wchar.h>
#include <stdex/uuid.hpp>
#include <stdex/langid.hpp>
#include <stdex/sys_info.hpp>
#include <stdex/minisign.hpp>
using vf::ints; using vf::event;
template <class T> static long long of(T c) { return sizeof(T) == 1 ? (long long)(uint8_t)c : (long long)c; }
template <class T> static void utext(const ints& a, ints& r)
{
	alignas(8) uuid_t id; for (int i = 0; i < 16; ++i) id[i] = (unsigned char)a[1 + i];
	std::unique_ptr<T[]> s(new T[stdex::uuid_str_max]); for (size_t i = 0; i < stdex::uuid_str_max; ++i) s[i] = (T)'#';
	stdex::uuidtostr(s.get(), id);
	size_t n = 0; while (n < stdex::uuid_str_max && s[n]) r.push_back(of(s[n++]));
	if (n == stdex::uuid_str_max) r.push_back(-1);
}
template <class T> static void uparse(const ints& a, ints& e)
{
	bool z = a[0] & 4; size_t n = (size_t)a[1]; std::unique_ptr<T[]> s(new T[n + z]); for (size_t i = 0; i < n; ++i) s[i] = (T)a[2 + i]; if (z) s[n] = 0;
	alignas(8) uuid_t id; memset(id, 0xa5, sizeof id);
	bool ok = stdex::strtouuid(s.get(), z ? SIZE_MAX : n, id);
	e.push_back(ok); if (ok) for (int i = 0; i < 16; ++i) e.push_back(id[i]);
}
static std::string text(const ints& a, size_t from) { std::string s; for (size_t i = from; i < a.size(); ++i) s += (char)a[i]; s.shrink_to_fit(); return s; }
static void scenario(const vf::scenario_t& s)
{
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r, e(a);
		if (op == "utext") { if (a[0]) utext<wchar_t>(a, r); else utext<char>(a, r); }
		else if (op == "uparse") { e.resize(2 + (size_t)a[1]); switch (a[0] & 3) { case 0: uparse<char>(a, e); break; case 1: uparse<wchar_t>(a, e); break; default: uparse<char16_t>(a, e); } }
		else if (op == "tag") { auto t = stdex::rfc1766_from_langid((stdex::langid)a[0], a[1] ? "?" : nullptr); if (!t) r = { -1 }; else for (; *t; ++t) r.push_back(of(*t)); }
		else if (op == "tags") { for (long long i = a[0]; i <= a[1]; ++i) if (stdex::rfc1766_from_langid((stdex::langid)i)) r.push_back(i); }
		else if (op == "lang") r = { stdex::langid_from_rfc1766(std::unique_ptr<char, void (*)(void*)>(strdup(text(a, 0).c_str()), free).get()) };
		else if (op == "parts") r = { stdex::primary_langid((stdex::langid)a[0]), stdex::sub_langid((stdex::langid)a[0]) };
		else if (op == "platform") r = { (long long)stdex::platform_from_name(text(a, 0).c_str()) };
		else if (op == "system") {
			struct utsname u = {}; uname(&u); auto pw = getpwuid(geteuid());
			r = { stdex::sys_info.os_platform == stdex::platform_from_name(u.machine), stdex::sys_info.elevated == (geteuid() == 0), stdex::sys_info.username == (pw && pw->pw_name ? pw->pw_name : ""),
				stdex::sys_info.process_platform == stdex::sys_info.os_platform || sizeof(void*) == 4 };
		}
		else if (op == "sig") {
			auto t = text(a, 1); stdex::stream::memory_file f; std::string junk((size_t)a[0], 'E'); f.write_array(junk.data(), 1, junk.size()); f.write_array(t.data(), 1, t.size()); f.seekbeg((stdex::stream::fpos_t)a[0]);
			uint8_t alg = 0, key[8], sig[64]; memset(key, 0xa5, 8); memset(sig, 0xa5, 64);
			try {
				stdex::minisign::parse_minisig(f, alg, key, sig);
				r.push_back(alg); r.insert(r.end(), key, key + 8); r.insert(r.end(), sig, sig + 64); r.push_back((long long)(f.size() - f.tell()));
			} catch (const std::exception&) { r = { -99 }; }
		}
		else if (op == "piece") {
			size_t n = a.size() - 2; std::unique_ptr<char[]> t(new char[n]); for (size_t i = 0; i < n; ++i) t[i] = (char)a[2 + i];
			stdex::minisign::untrusted_comment c; stdex::minisign::line_break b; stdex::parser::parser& p = a[0] ? (stdex::parser::parser&)b : c;
			bool ok = p.match(t.get(), (size_t)a[1], n); if (ok != (bool)p.interval) r = { -7 }; else if (ok) r = { (long long)p.interval.start, (long long)p.interval.end };
		}
		event(op.c_str(), e, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 10); }
