// base64 and hex session driver. First argument of operations: 1 char, 2 wchar_t
#include <stdex/base64.hpp>
#include <stdex/hex.hpp>
#include "streams.hpp"
using vf::ints; using vf::event;
static std::vector<uint8_t> bytes(const ints& a, size_t i) { return std::vector<uint8_t>(a.begin() + i, a.end()); }
template <class C> static ints str(const std::basic_string<C>& s) { ints r; for (auto c : s) r.push_back((long long)(typename std::make_unsigned<C>::type)c); return r; }
template <class C, class D> static ints dec(D& d, const ints& a) {
	std::unique_ptr<C[]> t(new C[a.size() - 1]); for (size_t i = 1; i < a.size(); ++i) t[i - 1] = (C)a[i];
	std::vector<uint8_t> out; out.push_back(77); bool last; d.decode(out, last, t.get(), a.size() - 1);
	ints r = { last }; if (out[0] != 77) r.push_back(-1); for (size_t i = 1; i < out.size(); ++i) r.push_back(out[i]); return r;
}
template <class C, class F> static ints enc(F f) { std::basic_string<C> out(1, (C)77); f(out); if (out[0] != 77) return { -1 }; out.erase(0, 1); return str(out); }
static void scenario(const vf::scenario_t& s)
{
	stdex::base64_enc be; stdex::base64_dec bd; stdex::hex_enc he; stdex::hex_dec hd;
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") { event("start", a, {}); continue; }
		auto bound = [&](long long kind, size_t n, size_t v) { event("bound", { kind, (long long)n, (long long)v }, {}); };
		size_t n = op == "enc" ? a.size() - 2 : a.size() - 1;
		if (op == "enc") bound(1, n, be.enc_size(n)); else if (op == "dec") bound(2, n, bd.dec_size(n)); else if (op == "hexenc") bound(3, n, he.enc_size(n)); else if (op == "hexdec") bound(4, n, hd.dec_size(n));
		if (op == "enc") {
			auto v = bytes(a, 2); std::unique_ptr<uint8_t[]> p(new uint8_t[v.size()]); std::copy(v.begin(), v.end(), p.get());
			if (a[0] == 1) r = enc<char>([&](std::string& o) { be.encode(o, p.get(), v.size(), a[1] == 1); });
			else r = enc<wchar_t>([&](std::wstring& o) { be.encode(o, p.get(), v.size(), a[1] == 1); });
		}
		else if (op == "dec") r = a[0] == 1 ? dec<char>(bd, a) : dec<wchar_t>(bd, a);
		else if (op == "hexenc") {
			auto v = bytes(a, 1); std::unique_ptr<uint8_t[]> p(new uint8_t[v.size()]); std::copy(v.begin(), v.end(), p.get());
			if (a[0] == 1) r = enc<char>([&](std::string& o) { he.encode(o, p.get(), v.size()); }); else r = enc<wchar_t>([&](std::wstring& o) { he.encode(o, p.get(), v.size()); });
		}
		else if (op == "hexdec") r = a[0] == 1 ? dec<char>(hd, a) : dec<wchar_t>(hd, a);
		else if (op == "clear") { be.clear(); bd.clear(); hd.clear(); }
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
