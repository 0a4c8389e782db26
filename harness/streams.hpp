// Test doubles for streams.
#pragma once
#include <stdex/stream.hpp>
#include "common.hpp"
namespace vf {
	using stdex::stream::basic; using stdex::stream::state_t;
	// Delivers n bytes of payload `tag`, then eof (or fail). Reads return at most `chunk` bytes (0: as many as asked for).
	class source : public basic {
	public:
		source(long long tag, long long n, bool fails = false, long long chunk = 0) : m_tag(tag), m_n(n), m_fail(fails), m_chunk(chunk) {}
		size_t read(void* data, size_t length) override {
			if (!length) { m_state = state_t::ok; return 0; }
			size_t n = (size_t)std::min<long long>((long long)std::min<size_t>(length, INT64_MAX), m_n - m_pos);
			if (m_chunk) n = std::min<size_t>(n, (size_t)m_chunk);
			if (!n) { m_state = m_fail ? state_t::fail : state_t::eof; return 0; }
			for (size_t i = 0; i < n; ++i) ((uint8_t*)data)[i] = pat(m_tag, m_pos + i);
			m_pos += n; m_state = state_t::ok; return n;
		}
		long long m_tag, m_n; bool m_fail; long long m_chunk, m_pos = 0;
	};
}
namespace vf {
	// A device. Reading: n bytes of payload 3, at most `chunk` at once (0: any), then eof (fin 1) or fail (2).
	// Writing: collects; takes at most `wchunk` at once (0: any); takes `wlimit` in total (-1: any), and what does not fit is refused:
	// with failure (wmode 1), or as a short write that succeeds, and failure when nothing fits any more (wmode 2).
	class dev : public basic {
	public:
		dev(const long long* p) : total(p[0]), fin(p[1]), chunk(p[2]), wlimit(p[3]), wmode(p[4]), wchunk(p[5]) {}
		size_t read(void* data, size_t length) override {
			if (!length) { m_state = state_t::ok; return 0; }
			size_t n = (size_t)std::min<long long>((long long)std::min<size_t>(length, INT64_MAX), total - rpos);
			if (chunk) n = std::min<size_t>(n, (size_t)chunk);
			if (!n) { m_state = fin == 2 ? state_t::fail : state_t::eof; return 0; }
			for (size_t i = 0; i < n; ++i) ((uint8_t*)data)[i] = pat(3, rpos + i);
			rpos += n; m_state = state_t::ok; return n;
		}
		size_t write(const void* data, size_t length) override {
			size_t n = length; bool no = false;
			if (wchunk) n = std::min<size_t>(n, (size_t)wchunk);
			if (wlimit >= 0 && (long long)got.size() + (long long)n > wlimit) { n = (size_t)(wlimit - (long long)got.size()); no = true; }
			got.insert(got.end(), (const uint8_t*)data, (const uint8_t*)data + n);
			if (no) refused++;
			m_state = no && (wmode == 1 || !n) ? state_t::fail : state_t::ok;
			return n;
		}
		void flush() override { flushes++; m_state = state_t::ok; }
		void close() override { closes++; m_state = state_t::ok; }
		long long total, fin, chunk, wlimit, wmode, wchunk, rpos = 0, refused = 0, flushes = 0, closes = 0;
		std::vector<uint8_t> got;
	};
}
