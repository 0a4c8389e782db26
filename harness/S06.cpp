// typed I/O driver. start: at most so many bytes per read (0: any), how the tape ends (1 eof, 2 fail), capacity for writing (-1: any), content..
#include "streams.hpp"
#include <set>
using namespace stdex::stream; using vf::ints; using vf::event;
#include <new>
void* operator new(size_t n) { if (n > (1u << 28)) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
struct tape : public basic {
	std::vector<uint8_t> d; size_t p = 0, chunk = 0; bool fails = false; long long cap = -1;
	size_t read(void* data, size_t length) override {
		if (!length) { m_state = state_t::ok; return 0; }
		size_t n = std::min(length, d.size() - p); if (chunk) n = std::min(n, chunk);
		if (!n) { m_state = fails ? state_t::fail : state_t::eof; return 0; }
		memcpy(data, d.data() + p, n); p += n; m_state = state_t::ok; return n;
	}
	size_t write(const void* data, size_t length) override {
		size_t n = length; if (cap >= 0) n = std::min<size_t>(n, (size_t)std::max<long long>(0, cap - (long long)d.size()));
		d.insert(d.end(), (const uint8_t*)data, (const uint8_t*)data + n); m_state = n < length ? state_t::fail : state_t::ok; return n;
	}
};
static std::unique_ptr<tape> t;
static long long st() { return (long long)(int)t->state(); }
static void add(ints& r, const void* p, size_t n) { for (size_t i = 0; i < n; ++i) r.push_back(((const uint8_t*)p)[i]); }
static void num(ints& r, size_t n) { uint32_t x = (uint32_t)n; add(r, &x, 4); }
// flat form of values
template <class T> static void flat(ints& r, const T& v) { add(r, &v, sizeof v); }
template <class T> static void flat(ints& r, const std::basic_string<T>& v) { num(r, v.size()); add(r, v.data(), v.size() * sizeof(T)); }
template <class T> static void flat(ints& r, const std::vector<T>& v) { num(r, v.size()); for (auto& x : v) flat(r, x); }
template <class T> static void flat(ints& r, const std::set<T>& v) { num(r, v.size()); for (auto& x : v) flat(r, x); }
template <class T> static void flat(ints& r, const std::multiset<T>& v) { num(r, v.size()); for (auto& x : v) flat(r, x); }
// what was in the target before must not show
template <class T> static void old(T& v) { memset((void*)&v, 0x5a, sizeof v); }
template <class T> static void old(std::basic_string<T>& v) { v.assign(3, (T)0x5a); }
template <class T> static void old(std::vector<T>& v) { v.resize(2); old(v[0]); old(v[1]); }
template <class T> static void old(std::set<T>& v) { T x; old(x); v.insert(x); }
template <class T> static void old(std::multiset<T>& v) { T x; old(x); v.insert(x); v.insert(x); }
template <class T> static ints get() { T v{}; old(v); *t >> v; ints r = { st() }; if (t->ok()) flat(r, v); return r; }
template <class C> static ints getstr() { std::basic_string<C> v(3, (C)0x5a); *t >> v; ints r = { st() }; if (t->ok()) add(r, v.data(), v.size() * sizeof(C)); return r; }
// values from their stored form
template <class T> static void parse(const std::vector<uint8_t>& b, size_t& i, T& v) { memcpy((void*)&v, b.data() + i, sizeof v); i += sizeof v; }
static uint32_t pnum(const std::vector<uint8_t>& b, size_t& i) { uint32_t n; memcpy(&n, b.data() + i, 4); i += 4; return n; }
static void parse(const std::vector<uint8_t>& b, size_t& i, std::string& v) { auto n = pnum(b, i); v.assign((const char*)b.data() + i, n); i += n; }
template <class T> static void parse(const std::vector<uint8_t>& b, size_t& i, std::vector<T>& v) { auto n = pnum(b, i); while (n--) { T x{}; parse(b, i, x); v.push_back(x); } }
template <class T> static void parse(const std::vector<uint8_t>& b, size_t& i, std::set<T>& v) { auto n = pnum(b, i); while (n--) { T x{}; parse(b, i, x); v.insert(x); } }
template <class T> static void parse(const std::vector<uint8_t>& b, size_t& i, std::multiset<T>& v) { auto n = pnum(b, i); while (n--) { T x{}; parse(b, i, x); v.insert(x); } }
static ints put_done(size_t before) { ints r = { st() }; add(r, t->d.data() + before, t->d.size() - before); return r; }
template <class T> static ints put(const ints& a) { std::vector<uint8_t> b(a.begin() + 1, a.end()); size_t i = 0; T v{}; parse(b, i, v); auto n = t->d.size(); *t << v; return put_done(n); }
template <class C> static ints putstr(const ints& a) {
	std::vector<uint8_t> b(a.begin() + 2, a.end()); std::basic_string<C> v(b.size() / sizeof(C), C()); memcpy((void*)v.data(), b.data(), v.size() * sizeof(C));
	auto n = t->d.size(); if (a[1]) *t << v.c_str(); else *t << v; return put_done(n);
}
template <class C> static ints readln() { std::basic_string<C> v(3, (C)0x5a); size_t n = t->readln(v); ints r = { (long long)n, st() }; add(r, v.data(), v.size() * sizeof(C)); return r; }
static void scenario(const vf::scenario_t& s)
{
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "start") {
			t.reset(new tape()); t->chunk = (size_t)a[0]; t->fails = a[1] == 2; t->cap = a[2]; t->d.assign(a.begin() + 3, a.end());
			event("start", a, {}); continue;
		}
		try {
			if (op == "load") t->d.insert(t->d.end(), a.begin(), a.end());
			else if (op == "flush") { t->flush(); r = { st() }; }
			else if (op == "get") switch (a[0]) {
				case 1: r = get<int8_t>(); break; case 2: r = get<int16_t>(); break; case 3: r = get<int32_t>(); break; case 4: r = get<int64_t>(); break;
				case 5: r = get<uint8_t>(); break; case 6: r = get<uint16_t>(); break; case 7: r = get<uint32_t>(); break; case 8: r = get<uint64_t>(); break;
				case 9: r = get<float>(); break; case 10: r = get<double>(); break; case 11: r = get<char>(); break; }
			else if (op == "put") switch (a[0]) {
				case 1: r = put<int8_t>(a); break; case 2: r = put<int16_t>(a); break; case 3: r = put<int32_t>(a); break; case 4: r = put<int64_t>(a); break;
				case 5: r = put<uint8_t>(a); break; case 6: r = put<uint16_t>(a); break; case 7: r = put<uint32_t>(a); break; case 8: r = put<uint64_t>(a); break;
				case 9: r = put<float>(a); break; case 10: r = put<double>(a); break; case 11: r = put<char>(a); break; }
			else if (op == "getstr") r = a[0] == 1 ? getstr<char>() : a[0] == 2 ? getstr<stdex::utf16_t>() : getstr<wchar_t>();
			else if (op == "putstr") r = a[0] == 1 ? putstr<char>(a) : a[0] == 2 ? putstr<stdex::utf16_t>(a) : putstr<wchar_t>(a);
			else if (op == "getcoll") switch (a[0]) {
				case 5: r = get<std::vector<uint8_t>>(); break; case 6: r = get<std::vector<uint16_t>>(); break; case 7: r = get<std::vector<uint32_t>>(); break; case 8: r = get<std::vector<uint64_t>>(); break; case 10: r = get<std::vector<double>>(); break;
				case 20: r = get<std::vector<std::string>>(); break; case 21: r = get<std::vector<std::vector<uint16_t>>>(); break;
				case 22: r = get<std::set<uint16_t>>(); break; case 23: r = get<std::set<std::string>>(); break; case 24: r = get<std::multiset<uint16_t>>(); break; }
			else if (op == "putcoll") switch (a[0]) {
				case 5: r = put<std::vector<uint8_t>>(a); break; case 6: r = put<std::vector<uint16_t>>(a); break; case 7: r = put<std::vector<uint32_t>>(a); break; case 8: r = put<std::vector<uint64_t>>(a); break; case 10: r = put<std::vector<double>>(a); break;
				case 20: r = put<std::vector<std::string>>(a); break; case 21: r = put<std::vector<std::vector<uint16_t>>>(a); break;
				case 22: r = put<std::set<uint16_t>>(a); break; case 23: r = put<std::set<std::string>>(a); break; case 24: r = put<std::multiset<uint16_t>>(a); break; }
			else if (op == "array") {
				size_t m = (size_t)(a[0] * a[1]); std::unique_ptr<uint8_t[]> p(new uint8_t[m]);
				size_t n = t->read_array(p.get(), (size_t)a[0], (size_t)a[1]);
				r = { (long long)n, st() }; add(r, p.get(), std::min<size_t>(n * a[0], m));
			}
			else if (op == "remainder") { auto v = a[0] < 0 ? t->read_remainder() : t->read_remainder((size_t)a[0]); r = { (long long)v.size(), st() }; add(r, v.data(), v.size()); }
			else if (op == "skip") { t->skip((stdex::stream::fsize_t)a[0]); r = { st() }; }
			else if (op == "byte") { auto x = t->read_byte(); r = { x }; }
			else if (op == "readln") r = a[0] == 1 ? readln<char>() : a[0] == 2 ? readln<stdex::utf16_t>() : readln<wchar_t>();
			else if (op == "fill") { auto n = t->d.size(); t->write_byte((uint8_t)a[0], (stdex::stream::fsize_t)a[1]); r = put_done(n); }
			else if (op == "copy") { // amount, how the other tape ends, chunk, content..
				tape u; u.d.assign(a.begin() + 3, a.end()); u.fails = a[1] == 2; u.chunk = (size_t)a[2];
				auto n = t->d.size(); auto k = a[0] < 0 ? t->write_stream(u) : t->write_stream(u, (stdex::stream::fsize_t)a[0]);
				ints b = { a[0], a[1], (long long)u.p }; b.insert(b.end(), a.begin() + 3, a.end());
				r = put_done(n); r.insert(r.begin(), (long long)k); event("copy", b, r); continue;
			}
			else if (op == "print") {
				auto n = t->d.size(); size_t k; const auto& c = stdex::locale_C;
				if (a[0] == 1) { std::string x(a.begin() + 2, a.end()); k = t->write_sprintf("<%d|%s>", c, (int)a[1], x.c_str()); }
				else { std::wstring x(a.begin() + 2, a.end()); k = t->write_sprintf(L"<%d|%ls>", c, (int)a[1], x.c_str()); }
				r = put_done(n); r.insert(r.begin(), (long long)k);
			}
			else if (op == "encode") { // size of character, by length?, text..
				std::string x(a.begin() + 2, a.end()); auto n = t->d.size(); size_t k;
				std::string y = x + "~~"; auto id = stdex::charset_id::utf8;
				auto go = [&](auto& e) { return a[1] ? t->write_array(y.data(), x.size(), e) : t->write_array(x.c_str(), e); };
				auto gos = [&](auto& e) { return a[1] == 2 ? t->write_array(x, e) : go(e); };
				if (a[0] == 1) { stdex::charset_encoder<char, char> e(id, id); k = gos(e); }
				else if (a[0] == 2) { stdex::charset_encoder<char, stdex::utf16_t> e(id, stdex::charset_id::utf16); k = gos(e); }
				else { stdex::charset_encoder<char, wchar_t> e(id, stdex::charset_id::utf32); k = gos(e); }
				ints b = { a[0] }; b.insert(b.end(), a.begin() + 2, a.end());
				r = put_done(n); r.insert(r.begin(), (long long)k); event("encode", b, r); continue;
			}
			else if (op == "bom") {
				std::vector<uint8_t> b(a.begin(), a.end()); memory_file f; f.write(b.data(), b.size());
				auto c = f.read_charset(); r = { c == stdex::charset_id::utf32 ? 4 : c == stdex::charset_id::utf16 ? 2 : c == stdex::charset_id::utf8 ? 1 : 0, (long long)f.tell() };
			}
			else if (op == "putbom") { auto n = t->d.size(); t->write_charset(a[0] == 4 ? stdex::charset_id::utf32 : a[0] == 2 ? stdex::charset_id::utf16 : a[0] == 1 ? stdex::charset_id::utf8 : stdex::charset_id::system); r = put_done(n); }
		}
		catch (const std::exception&) { r = { -99 }; }
		event(op.c_str(), a, r);
		if (op.compare(0, 3, "get") == 0 && r[0] == -99) return;
	}
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario); }
