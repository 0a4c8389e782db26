// Records driver. start kind iface content.. ; what the records' data is: see payload
#include <stdex/wav.hpp>
#include "streams.hpp"
using namespace stdex; using vf::ints; using vf::event;
struct payload {
	std::vector<uint8_t> d; size_t want = 0;
	friend stream::basic& operator <<(stream::basic& s, const payload& p) { if (!p.d.empty()) s.write_array(p.d.data(), 1, p.d.size()); return s; }
	friend stream::basic& operator >>(stream::basic& s, payload& p) { p.d.resize(p.want); size_t n = p.want ? s.read(p.d.data(), p.want) : 0; p.d.resize(n); return s; }
	friend std::ostream& operator <<(std::ostream& s, const payload& p) { return s.write((const char*)p.d.data(), (std::streamsize)p.d.size()); }
	friend std::istream& operator >>(std::istream& s, payload& p) { p.d.resize(p.want); s.read((char*)p.d.data(), (std::streamsize)p.want); p.d.resize((size_t)s.gcount()); return s; }
};
static int stt(const stream::basic& s) { return (int)s.state(); }
static uint32_t le(const ints& a, size_t i, size_t n = 4) { uint32_t x = 0; while (n--) x = x << 8 | (uint8_t)a[i + n]; return x; }
static void el(ints& a, uint32_t x, size_t n = 4) { while (n--) { a.push_back(x & 255); x >>= 8; } }
static std::string txt(const ints& a, size_t i, size_t e) { std::string s; for (; i < e; ++i) s += (char)a[i]; return s; }
static void cue_of(wav::cue& c, const ints& a, size_t i) { c.id = le(a, i); c.position = le(a, i + 4); c.chunk_id = le(a, i + 8); c.chunk_offset = le(a, i + 12); c.block_start = le(a, i + 16); c.block_offset = le(a, i + 20); }
static void of_cue(ints& a, const wav::cue& c) { el(a, c.id); el(a, c.position); el(a, c.chunk_id); el(a, c.chunk_offset); el(a, c.block_start); el(a, c.block_offset); }
static void add(ints& a, const std::string& s) { for (char c : s) a.push_back((uint8_t)c); }
template <class S> static void wput(S& s, const ints& a)
{
	if (a[0] == 1) { wav::format x; x.compression = (wav::format::compression_t)le(a, 1, 2); x.num_channels = le(a, 3, 2); x.sample_rate = le(a, 5); x.bytes_per_second = le(a, 9); x.block_align = le(a, 13, 2); x.bits_per_channel = le(a, 15, 2);
		for (size_t i = 17; i < a.size(); ++i) x.extra.write_byte((uint8_t)a[i]); s << wav::format::record(x); }
	else if (a[0] == 2) { wav::data x; for (size_t i = 1; i < a.size(); ++i) x.content.write_byte((uint8_t)a[i]); s << wav::data::record(x); }
	else if (a[0] == 3) { wav::silence x; x.num_samples = le(a, 1); s << wav::silence::record(x); }
	else if (a[0] == 4) { wav::cue_vector x; for (size_t i = 1; i < a.size(); i += 24) { x.emplace_back(); cue_of(x.back(), a, i); } s << wav::cue_vector_record(x); }
	else if (a[0] == 5) { wav::ltxt x; x.id = le(a, 1); x.duration = le(a, 5); x.purpose_id = le(a, 9); x.country = le(a, 13, 2); x.language = le(a, 15, 2); x.dialect = le(a, 17, 2); x.charset = le(a, 19, 2); x.description = txt(a, 21, a.size()); s << wav::ltxt::record(x); }
	else if (a[0] == 6) { wav::label x; x.id = le(a, 1); x.title = txt(a, 5, a.size()); s << wav::label::record(x); }
	else if (a[0] == 7) { wav::note x; x.id = le(a, 1); x.note = txt(a, 5, a.size()); s << wav::note::record(x); }
	else { wav::header x; x.type = le(a, 1); s << wav::header::record(x); }
}
template <class S> static void wget(S& s, long long t, ints& a)
{
	if (t == 1) { wav::format x; x.extra.write_byte(7); s >> wav::format::record(x); el(a, (uint32_t)x.compression, 2); el(a, x.num_channels, 2); el(a, x.sample_rate); el(a, x.bytes_per_second); el(a, x.block_align, 2); el(a, x.bits_per_channel, 2);
		auto p = (const uint8_t*)x.extra.data(); for (size_t i = 0; i < x.extra.size(); ++i) a.push_back(p[i]); }
	else if (t == 2) { wav::data x; x.content.write_byte(7); s >> wav::data::record(x); auto p = (const uint8_t*)x.content.data(); for (size_t i = 0; i < x.content.size(); ++i) a.push_back(p[i]); }
	else if (t == 3) { wav::silence x; s >> wav::silence::record(x); el(a, x.num_samples); }
	else if (t == 4) { wav::cue_vector x(3); s >> wav::cue_vector_record(x); for (auto& c : x) of_cue(a, c); }
	else if (t == 5) { wav::ltxt x; x.description = "?"; s >> wav::ltxt::record(x); el(a, x.id); el(a, x.duration); el(a, x.purpose_id); el(a, x.country, 2); el(a, x.language, 2); el(a, x.dialect, 2); el(a, x.charset, 2); add(a, x.description); }
	else if (t == 6) { wav::label x; x.title = "?"; s >> wav::label::record(x); el(a, x.id); add(a, x.title); }
	else if (t == 7) { wav::note x; x.note = "?"; s >> wav::note::record(x); el(a, x.id); add(a, x.note); }
	else { wav::header x; s >> wav::header::record(x); el(a, x.type); }
}
template <class ID, class SZ, SZ N>
static void go(const vf::scenario_t& s)
{
	int iface = 0; stream::memory_file f; std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); long long pos = 0;
	std::unique_ptr<stream::converter> cv; std::vector<long long> stk;
	auto len = [&]() -> long long { return iface == 2 ? (long long)ss.str().size() : (long long)f.size(); };
	auto wr = [&] { ss.clear(); ss.seekp(pos); }; auto wrd = [&] { pos = (long long)ss.tellp(); };
	auto rd = [&] { ss.clear(); ss.seekg(pos); };
	bool lost = false;
	auto fin = [&](ints& r, bool w = false) {
		long long st, t;
		if (iface == 2) { st = ss.fail() ? 2 : 0; t = w ? (long long)ss.tellp() : (long long)ss.tellg(); if (t >= 0) pos = t; }
		else { st = iface == 1 ? stt(*cv) : stt(f); t = (long long)f.tell(); }
		if (t < 0 || t > len() + 8) lost = true;
		r.insert(r.begin(), { st, t < 0 || t > len() + 8 ? t == -1 ? -1 : 9999 : t });
	};
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r, e = a;
		if (op == "seek") lost = false;
		if (lost && op != "dump") continue;
		if (op != "start" && op != "seek" && iface != 2 && !lost) { f.seek(f.tell()); if (iface == 1) cv.reset(new stream::converter(f)); }
		try {
		if (op == "start") {
			iface = (int)a[1]; std::vector<uint8_t> d(a.begin() + 2, a.end());
			if (iface == 2) { if (!d.empty()) ss.write((char*)d.data(), (std::streamsize)d.size()); } else { if (!d.empty()) f.write(d.data(), d.size()); f.seek(0); }
			if (iface == 1) cv.reset(new stream::converter(f));
		}
		else if (op == "seek") { if (iface == 2) pos = a[0]; else f.seek((stream::fpos_t)a[0]); }
		else if (op == "open") { long long p; if (iface == 2) { wr(); p = idrec::open<ID, SZ>(ss, (ID)a[0]); wrd(); } else p = (long long)idrec::open<ID, SZ>(f, (ID)a[0]); stk.push_back(p); r = { p }; }
		else if (op == "bytes" || op == "fill") {
			if (op == "fill") { e.assign((size_t)a[0], a[1]); }
			std::vector<uint8_t> d(e.begin(), e.end()); if (d.empty()) d.reserve(1);
			if (iface == 2) { wr(); ss.write((char*)d.data(), (std::streamsize)d.size()); wrd(); } else f.write(d.data(), d.size());
			event(op.c_str(), a, {}); continue;
		}
		else if (op == "close") { if (stk.empty()) continue; long long p = stk.back(); stk.pop_back(); if (iface == 2) { wr(); r = { (long long)idrec::close<ID, SZ, N>(ss, (std::streamoff)p) }; wrd(); } else r = { (long long)idrec::close<ID, SZ, N>(f, (stream::fpos_t)p) }; }
		else if (op == "put") {
			payload p; p.d.assign(a.begin() + 1, a.end());
			auto put = [&](auto id) {
				idrec::record<payload, ID, decltype(id)::value, SZ, N> x(p);
				if (iface == 2) { wr(); ss << x; } else if (iface == 1) *cv << x; else (stream::basic_file&)f << x;
			};
			switch (a[0]) { case 1: put(std::integral_constant<ID, 1>()); break; case 2: put(std::integral_constant<ID, 2>()); break; default: put(std::integral_constant<ID, 3>()); }
			fin(r, true);
		}
		else if (op == "get") {
			payload p; p.want = (size_t)a[0];
			if (iface == 2) { std::string z = ss.str(); bool no = false; if (pos + (long long)sizeof(SZ) <= (long long)z.size()) { SZ n; memcpy(&n, z.data() + pos, sizeof n); unsigned long long pad = (N - n % N) % N; no = a[0] > (long long)n || pos + sizeof(SZ) + (unsigned long long)n + pad > z.size(); } if (no) { lost = true; event("get", a, { -2 }); continue; } }
			idrec::record<payload, ID, (ID)1, SZ, N> x(p);
			if (iface == 2) { rd(); ss >> x; } else if (iface == 1) *cv >> x; else (stream::basic_file&)f >> x;
			r = { (long long)p.d.size() }; for (auto b : p.d) r.push_back(b);
			fin(r);
		}
		else if (op == "ignore") { bool b; if (iface == 2) { rd(); b = idrec::ignore<SZ, N>(ss); } else if (iface == 1) b = idrec::ignore<SZ, N>(*cv); else b = idrec::ignore<SZ, N>(f); r = { b }; fin(r); }
		else if (op == "find") {
			bool b; if (iface == 2) { rd(); b = a[1] < 0 ? idrec::find<ID, SZ, N>(ss, (ID)a[0]) : idrec::find<ID, SZ, N>(ss, (ID)a[0], (std::streamoff)a[1]); }
			else b = a[1] < 0 ? idrec::find<ID, SZ, N>((stream::basic_file&)f, (ID)a[0]) : idrec::find<ID, SZ, N>((stream::basic_file&)f, (ID)a[0], (stream::fpos_t)a[1]);
			r = { b }; fin(r);
		}
		else if (op == "id") {
			ID i = 0; bool b; if (iface == 2) { rd(); b = a[0] < 0 ? idrec::read_id(ss, i) : idrec::read_id(ss, i, (std::streamoff)a[0]); }
			else b = a[0] < 0 ? idrec::read_id((stream::basic_file&)f, i) : idrec::read_id((stream::basic_file&)f, i, (stream::fpos_t)a[0]);
			r = { b }; if (b) el(r, (uint32_t)i, sizeof i); fin(r);
		}
		else if (op == "dump") { if (iface == 2) { for (char c : ss.str()) r.push_back((uint8_t)c); } else { auto p = (const uint8_t*)f.data(); for (size_t i = 0; i < f.size(); ++i) r.push_back(p[i]); } }
		else if (op == "wput") { if (iface == 1) wput((stream::basic&)*cv, a); else wput((stream::basic_file&)f, a); fin(r); }
		else if (op == "wget") { e = { a[0] }; if (iface == 1) wget((stream::basic&)*cv, a[0], e); else wget((stream::basic_file&)f, a[0], e); fin(r); }
		else if (op == "cues_put") {
			wav::cue_ex_vector v;
			for (size_t i = 0; i < a.size();) {
				v.emplace_back(); auto& c = v.back(); cue_of(c, a, i); i += 24; c.duration = le(a, i); c.purpose_id = le(a, i + 4); c.country = le(a, i + 8, 2); c.language = le(a, i + 10, 2); c.dialect = le(a, i + 12, 2); c.charset = le(a, i + 14, 2); i += 16;
				for (auto t : { &c.description, &c.title, &c.note }) { size_t n = (size_t)a[i++]; *t = txt(a, i, i + n); i += n; }
			}
			(stream::basic_file&)f << v; fin(r);
		}
		else if (op == "cues_read") {
			wav::cue_ex_vector v; bool b = a[0] < 0 ? wav::read_cues(f, v) : wav::read_cues(f, v, (stream::fpos_t)a[0]); e = { a[0] };
			for (auto& c : v) { of_cue(e, c); el(e, c.duration); el(e, c.purpose_id); el(e, c.country, 2); el(e, c.language, 2); el(e, c.dialect, 2); el(e, c.charset, 2); for (auto t : { &c.description, &c.title, &c.note }) { e.push_back((long long)t->size()); add(e, *t); } }
			long long t = (long long)f.tell(); if (t < 0 || t > len() + 8) { t = 9999; lost = true; } r = { b, t };
		}
		else if (op == "cues_remove") {
			stream::memory_file out; bool b = a[0] < 0 ? wav::remove_cues(f, out) : wav::remove_cues(f, out, (stream::fpos_t)a[0]); e = { a[0] };
			auto p = (const uint8_t*)out.data(); for (size_t i = 0; i < out.size(); ++i) e.push_back(p[i]);
			r = { b }; lost = true;
		}
		else if (op == "content") { stream::fpos_t x = 0; bool b = wav::find_content(f, a[0] < 0 ? stream::fpos_max : (stream::fpos_t)a[0], &x); if (x > (1 << 30)) x = 1 << 30; e = { a[0], b ? (long long)x : 0 }; r = { b, e[1] }; fin(r); }
		} catch (const std::exception&) { r = { -99 }; lost = true; }
		event(op.c_str(), e, r);
	}
}
static void scenario(const vf::scenario_t& s)
{
	if (s.ops.empty()) return;
	switch (s.ops[0].a[0]) { case 1: go<uint32_t, uint32_t, 2>(s); break; case 2: go<uint16_t, uint16_t, 4>(s); break; default: go<uint32_t, uint32_t, 1>(s); }
}
int main(int argc, char** argv) { return vf::run(argc, argv, scenario, 5, 60); }
