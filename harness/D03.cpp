// Arithmetic driver: numbers as bytes in memory's (little-endian) order.
#include "common.hpp"
#include <memory>
#include <stdex/math.hpp>
#include <stdex/endian.hpp>
using vf::ints; using vf::event;
template <class T> static T get(const ints& a, size_t i) { uint8_t b[sizeof(T)]; for (size_t k = 0; k < sizeof(T); ++k) b[k] = (uint8_t)a[i + k]; T v; memcpy(&v, b, sizeof v); return v; }
template <class T> static void put(ints& r, const T& v) { uint8_t b[sizeof(T)]; memcpy(b, &v, sizeof v); for (auto c : b) r.push_back(c); }
template <class T> static void swap_(const ints& a, ints& r)
{
	auto v = get<T>(a, 1); auto w = stdex::byteswap(v); put(r, (T)w);
	std::unique_ptr<T> p(new T(v)); stdex::byteswap(p.get()); ints q; put(q, *p); if (q != r) r.push_back(-1);
	auto b = (T)stdex::byteswap((T)w); ints s; put(s, b); if (s != ints(a.begin() + 1, a.end())) r.push_back(-2);
}
template <class T> static void order(const ints& a, ints& r) { auto v = get<T>(a, 1); T x = HE2LE(v), y = LE2HE(v), z = HE2BE(v), w = BE2HE(v); put(r, x); put(r, y); put(r, z); put(r, w); }
template <class T> static void muldiv(ints& e) { auto v = stdex::muldiv(get<T>(e, 1), get<T>(e, 1 + sizeof(T)), get<T>(e, 1 + 2 * sizeof(T))); static_assert(std::is_same_v<decltype(v), T>); put(e, v); }
static void scenario(const vf::scenario_t& s)
{
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r, e(a);
		if (op == "mul" || op == "add") { auto x = get<uint64_t>(a, 0), y = get<uint64_t>(a, 8); try { put(r, (uint64_t)(op == "mul" ? stdex::mul(x, y) : stdex::add(x, y))); } catch (const std::invalid_argument&) { r = { -99 }; } }
		else if (op == "rol") put(r, stdex::rol(get<uint32_t>(a, 1), (int)a[0]));
		else if (op == "muldiv") { if (a.size() > 24) { if (a[0]) muldiv<int64_t>(e); else muldiv<uint64_t>(e); } else if (a[0]) muldiv<int32_t>(e); else muldiv<uint32_t>(e); }
		else if (op == "swap") switch (a[0]) {
			case 0: swap_<uint8_t>(a, r); break; case 1: swap_<uint16_t>(a, r); break; case 2: swap_<uint32_t>(a, r); break; case 3: swap_<uint64_t>(a, r); break;
			case 4: swap_<int8_t>(a, r); break; case 5: swap_<int16_t>(a, r); break; case 6: swap_<int32_t>(a, r); break; case 7: swap_<int64_t>(a, r); break;
			case 8: swap_<float>(a, r); break; case 9: swap_<double>(a, r); break; case 10: swap_<char>(a, r); break;
		}
		else if (op == "order") switch (a[0]) {
			case 0: order<uint8_t>(a, r); break; case 1: order<uint16_t>(a, r); break; case 2: order<uint32_t>(a, r); break; case 3: order<uint64_t>(a, r); break;
			case 5: order<int16_t>(a, r); break; case 6: order<int32_t>(a, r); break; case 7: order<int64_t>(a, r); break; case 8: order<float>(a, r); break; case 9: order<double>(a, r); break;
		}
		event(op.c_str(), e, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5); }
