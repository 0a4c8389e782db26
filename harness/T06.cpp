#include <stdex/mapping.hpp>
#include <stdex/interval.hpp>
#include "common.hpp"
using vf::ints; using vf::event;
template <class T> static void go(const vf::scenario_t& s)
{
	stdex::mapping_vector<T> m; size_t hint = 0;
	using I = stdex::interval<T>; using M = stdex::mapping<T>;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r, e = a; T x = a.empty() ? 0 : (T)a[0];
		auto add = [&](const I& i) { r.push_back((long long)(std::make_signed_t<T>)i.start); r.push_back((long long)(std::make_signed_t<T>)i.end); };
		if (op == "start") { for (size_t i = 1; i + 1 < a.size(); i += 2) m.push_back(M((T)a[i], (T)a[i + 1])); }
		else if (op == "hint") { hint = m.empty() ? 0 : (size_t)a[0] % m.size(); continue; }
		else if (op == "s2d") r = { (long long)stdex::src2dst(m, x) };
		else if (op == "d2s") r = { (long long)stdex::dst2src(m, x) };
		else if (op == "s2dh") { e = { a[0], (long long)hint }; r = { (long long)stdex::src2dst(m, x, hint) }; r.push_back((long long)hint); if (!m.empty() && hint >= m.size()) { event("s2dh", e, r); return; } }
		else if (op == "d2sh") { e = { a[0], (long long)hint }; r = { (long long)stdex::dst2src(m, x, hint) }; r.push_back((long long)hint); if (!m.empty() && hint >= m.size()) { event("d2sh", e, r); return; } }
		else if (op == "pts") { M p((T)a[0], (T)a[1]), q((T)a[2], (T)a[3]), z = p + q; r = { (long long)z.from, (long long)z.to }; bool eq = p == q, ne = p != q; p.invert(); r.insert(r.end(), { (long long)p.from, (long long)p.to, eq, ne, (long long)M((T)a[0]).from, (long long)M((T)a[0]).to, (long long)M().from, (long long)M().to }); }
		else if (op == "iv") {
			const I i((T)a[0], (T)a[1]), j((T)a[2], (T)a[3]); T x = (T)a[4];
			for (T k = 0; k < 16; ++k) r.push_back(i.contains(k));
			r.push_back((long long)i.size()); r.push_back(i.empty()); r.push_back((bool)i);
			add(i + j); add(i - j); add(i + x); add(i - x);
			{ I k = i; add(k += x); add(k); } { I k = i; add(k -= x); add(k); } { I k = i; add(++k); k = i; add(k++); add(k); } { I k = i; add(--k); k = i; add(k--); add(k); }
			r.push_back(i == j); r.push_back(i != j); add(I(x)); { I k; r.push_back((bool)k); r.push_back(k.empty()); r.push_back((long long)k.size()); k = i; k.invalidate(); r.push_back((bool)k); r.push_back(k.empty()); r.push_back((long long)k.size()); }
		}
		event(op.c_str(), e, r);
	}
}
static void scenario(const vf::scenario_t& s) { if (s.ops[0].a[0] == 0) go<size_t>(s); else go<int>(s); }
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5, 60); }
