// Secrets driver: memory from a heap that never touches what was released. Built as programs are built, optimized.
#include "common.hpp"
#include <map>
#include <list>
#include <stdex/memory.hpp>
#include <stdex/string.hpp>
#include "arena.hpp"
using vf::ints; using vf::event;
template <class T> using A = stdex::sanitizing_allocator<T>;
constexpr uint8_t SECRET = 0xA7;
template <size_t N> __attribute__((noinline)) static long long blob(long long n)
{
	stdex::sanitizing_blob<N> b; long long junk = 0; for (size_t i = 0; i < N; ++i) junk += b.m_data[i] != 0;
	arena_fill(b.m_data, N < (size_t)n ? N : (size_t)n, SECRET); arena_watch(b.m_data, N); return junk;
}
template <size_t N> static ints blobs(long long n) { long long j = blob<N>(n); return { arena_left(SECRET), j }; }
static void scenario(const vf::scenario_t& s)
{
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r; bool ok = true;
		if (op == "vec") {             // sizes
			arena_begin();
			{ std::vector<uint8_t, A<uint8_t>> v, w; for (size_t i = 0; i < a.size(); ++i) {
				size_t n = (size_t)(a[i] < 0 ? -a[i] : a[i]);
				if (a[i] == -1) v.shrink_to_fit(); else if (a[i] == -2) { w = v; } else if (a[i] == -3) { v.swap(w); } else if (a[i] == -4) { std::vector<uint8_t, A<uint8_t>> u(std::move(v)); v = u; } else if (a[i] < 0) v.reserve(n); else while (v.size() < n) v.push_back(SECRET);
				for (auto c : v) if (c != SECRET) ok = false;
			} }
			r = { arena_released(SECRET), ok };
		}
		else if (op == "str") {
			arena_begin();
			{ std::basic_string<char, std::char_traits<char>, A<char>> t; for (auto n : a) { if (n < 0) t.erase(t.size() / 2); else t.append((size_t)n, (char)SECRET); auto u = t + t; for (auto c : u) if ((uint8_t)c != SECRET) ok = false; } }
			r = { arena_released(SECRET), ok };
		}
		else if (op == "map") {
			arena_begin();
			{ std::list<uint64_t, A<uint64_t>> l; std::map<int, uint64_t, std::less<int>, A<std::pair<const int, uint64_t>>> m; for (auto n : a) { for (long long i = 0; i < n; ++i) { l.push_back(0xA7A7A7A7A7A7A7A7); m[(int)i] = 0xA7A7A7A7A7A7A7A7; } if (n < 0) { l.clear(); m.clear(); } } for (auto x : l) if (x != 0xA7A7A7A7A7A7A7A7) ok = false; }
			r = { arena_released(SECRET), ok };
		}
		else if (op == "blob") switch (a[0]) { case 0: r = blobs<1>(a[1]); break; case 1: r = blobs<16>(a[1]); break; case 2: r = blobs<33>(a[1]); break; default: r = blobs<500>(a[1]); }
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5); }
