seed("C07-try-store", "C07", "spinlock.hpp", [("!m_lock.exchange(true, std::memory_order_acquire);", "(m_lock.store(true, std::memory_order_seq_cst), true);")],
 "two threads that both see the lock free in try_lock() before either takes it", "both own the lock", r'''
#include <stdint.h>
#include <stdex/spinlock.hpp>
#include <thread>
#include <vector>
int main() {
	stdex::spinlock l; long n = 0; std::atomic<long> m{0}; std::atomic<int> in{0}; std::atomic<bool> bad{false};
	std::vector<std::thread> t;
	for (int i = 0; i < 4; ++i) t.emplace_back([&] { for (int k = 0; k < 1000000; ++k) if (l.try_lock()) { if (in.fetch_add(1)) bad = true; ++n; ++m; in.fetch_sub(1); l.unlock(); } });
	for (auto& x : t) x.join();
	return bad || n != m;
}
''', flags="-lpthread")
seed("C08-lazy-back", "C08", "progress.hpp", [("else if (value == m_value)", "else if (value <= m_value)")],
 "a value lower than the one shown last, when an update is due", "the update is not shown", r'''
#include <stdint.h>
#include <stdex/progress.hpp>
#include <vector>
struct lz : stdex::lazy_progress<int> { lz() : stdex::lazy_progress<int>(std::chrono::nanoseconds(0)) {} std::vector<int> v; void do_set() override { v.push_back(m_value); } };
int main() { lz l; l.set_range(0, 10); l.set(0); l.set(5); l.set(3); l.set(10); return l.v == std::vector<int>{ 0, 5, 3, 10 } ? 0 : 1; }
''')
seed("S06-cr-end", "S06", "stream.hpp", [("if (!initial && !(previous == static_cast<T>('\\r') && chr == static_cast<T>('\\n')))", "if (!initial && !(previous == static_cast<T>('\\r') && (chr == static_cast<T>('\\n') || !ok())))")],
 "a carriage return as the very last character of the data", "the last line is returned without it", r'''
#include <stdint.h>
#include <stdex/stream.hpp>
#include <string>
int main() { stdex::stream::memory_file f; f.write("ab\r\nc\r", 6); f.seek(0); std::string s, t; f.readln(s); f.readln(t); return s == "ab" && t == "c\r" ? 0 : 1; }
''')
seed("S09-short-write", "S09", "hash.hpp", [("m_hash.hash(data, num_written);", "m_hash.hash(data, num_written ? length : 0);")],
 "a stream that takes a part of what is written", "what was not written is hashed too, and again when it is written", r'''
#include <stdint.h>
#include <stdex/hash.hpp>
#include <string>
struct sink : stdex::stream::basic { std::string d; size_t write(const void* p, size_t n) override { if (n > 3) n = 3; d.append((const char*)p, n); m_state = stdex::stream::state_t::ok; return n; } };
int main() {
	sink s; stdex::crc32_hash h, g; stdex::stream_hasher<stdex::crc32_t> w(h, s); const char t[] = "hello, world";
	for (size_t i = 0; i < 12;) i += w.write(t + i, 12 - i);
	g.hash(t, 12); h.finalize(); g.finalize(); return (uint32_t)h == (uint32_t)g ? 0 : 1;
}
''')
seed("S10-eof-data", "S10", "zlib.hpp", [("m_state = num_read ? stdex::stream::state_t::ok : stdex::stream::state_t::eof;", "m_state = num_read ? stdex::stream::state_t::ok : m_source->state();")],
 "reading on after the end of the compressed data when more follows in the stream underneath", "the end is not reported", r"""
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <system_error>
#include <zlib.h>
#include <stdex/compat.hpp>
#include <stdex/stream.hpp>
#include <stdex/zlib.hpp>
int main() {
	stdex::stream::memory_file f; { stdex::zlib_writer w(f); w.write("hello", 5); }
	f.write("trailer", 7); f.seek(0); stdex::zlib_reader r(f, 4); char b[16];
	if (r.read(b, 5) != 5) return 1;
	r.read(b, 5); return r.state() == stdex::stream::state_t::eof ? 0 : 1;
}
""")
seed("T01-clear", "T01", "unicode.hpp", [("\t\t\ticonv(m_handle, NULL, NULL, NULL, NULL);", "\t\t\tif (m_from == m_to) iconv(m_handle, NULL, NULL, NULL, NULL);")],
 "a conversion from UTF-7 that fails inside of an encoded section, then clear()", "the encoder still is inside of it", r"""
#include <stdint.h>
#include <stdex/unicode.hpp>
#include <string>
int main() {
	stdex::charset_encoder<char, char> e(stdex::charset_id::utf7, stdex::charset_id::utf8);
	std::string s; try { e.strcat(s, "+AGEA\xff", 6); return 2; } catch (...) {}
	e.clear(); s.clear(); try { e.strcat(s, "AGIAY", 5); } catch (...) { return 1; }
	return s == "AGIAY" ? 0 : 1;
}
""")
seed("T02-last-pair", "T02", "sgml.hpp", [("if (i + 1 >= end || !is_surrogate_pair(src + i))", "if (i + 2 >= end || !is_surrogate_pair(src + i))")],
 "UTF-16 text with a surrogate pair without a name as the last character of a glyph", "the pair is written as two numeric entities, which are not characters", r'''
#include <stdint.h>
#include <stdex/sgml.hpp>
#include <string>
int main() {
	stdex::utf16_t a[] = { 0xd83d, 0xde00, 0 };
	return stdex::str2sgml(a, 2) == "&#x1f600;" ? 0 : 1;
}
''')
seed("T04-implied-end", "T04", "html.hpp", [("starting_tag->end = e.get();\n\t\t\t\t\t\t\t\tm_element_stack.resize(j);", "starting_tag->end = e.get();\n\t\t\t\t\t\t\t\tm_element_stack.resize(j + (j + 1 == m_element_stack.size()));", 0)],
 "an element that is ended by the start of another one and has an ending tag of its own later", "the ending tag is paired with an element that has ended already", r'''
#include <stdint.h>
#include <stdex/html.hpp>
#include <string>
struct doc : stdex::html::document<char> { auto& seq() { return m_sequences; } };
int main() {
	doc d; std::string s = "<p>a<div>b</div></p>"; d.assign(s.data(), s.size());
	auto& q = d.seq(); auto* e = (stdex::html::element_end*)q.back().get();
	return e->type == stdex::parser::html_sequence_t::element_end && !e->start ? 0 : 1;
}
''')
