seed("C02-pop-first", "C02", "stream.hpp", [("memcpy(data, ptr, num_read);\n\t\t\t\t\tm_ring.pop(num_read);", "m_ring.pop(num_read);\n\t\t\t\t\tmemcpy(data, ptr, num_read);")],
 "the reading thread runs between the release of the bytes and their copying", "bytes read ahead overwrite those that are still to be copied out", r'''
#include <stdint.h>
#include <stdex/stream.hpp>
#include <cstdio>
struct src : public stdex::stream::basic {
	size_t n = 0;
	size_t read(void* data, size_t length) override { size_t k = 0; for (; k < length && n < 200000; ++k, ++n) ((uint8_t*)data)[k] = (uint8_t)(n * 131 >> 3); m_state = k || !length ? stdex::stream::state_t::ok : stdex::stream::state_t::eof; return k; }
};
int main() {
	src s; stdex::stream::async_reader<8> r(s); uint8_t b[64]; size_t n = 0;
	for (size_t k; (k = r.read(b, 5)) != 0;) for (size_t i = 0; i < k; ++i, ++n) if (b[i] != (uint8_t)(n * 131 >> 3)) { printf("%zu\n", n); return 1; }
	return n == 200000 ? 0 : 1;
}
''', flags="-fsanitize=thread -lpthread")
seed("C03-push-first", "C03", "stream.hpp", [("memcpy(ptr, data, num_write);\n\t\t\t\t\tm_ring.push(num_write);", "m_ring.push(num_write);\n\t\t\t\t\tmemcpy(ptr, data, num_write);")],
 "the writing thread runs between the hand-over of the bytes and their copying", "what was in the buffer before is written in place of the data", r'''
#include <stdint.h>
#include <stdex/stream.hpp>
#include <cstdio>
struct sink : public stdex::stream::basic {
	size_t n = 0; bool bad = false;
	size_t write(const void* data, size_t length) override { for (size_t k = 0; k < length; ++k, ++n) if (((const uint8_t*)data)[k] != (uint8_t)(n * 131 >> 3)) bad = true; m_state = stdex::stream::state_t::ok; return length; }
};
int main() {
	sink s;
	{ stdex::stream::async_writer<8> w(s); uint8_t b[5]; for (size_t n = 0; n < 200000;) { for (auto& x : b) { x = (uint8_t)(n * 131 >> 3); ++n; } w.write(b, 5); } w.flush(); }
	return s.bad || s.n != 200000;
}
''', flags="-fsanitize=thread -lpthread")
seed("C04-skip-failed", "C04", "stream.hpp", [("num_written = source->write(data, length);", "if (source->ok()) num_written = source->write(data, length);")],
 "one of the streams failed once (a full disk, a flush) and would take data again", "the stream is left out from then on, and what it wrote last is reported in its name", r'''
#include <stdint.h>
#include <stdex/stream.hpp>
#include <cstdio>
#include <string>
struct sink : public stdex::stream::basic {
	std::string d; int fail = 0;
	size_t write(const void* data, size_t length) override { d.append((const char*)data, length); m_state = stdex::stream::state_t::ok; return length; }
	void flush() override { m_state = fail ? stdex::stream::state_t::fail : stdex::stream::state_t::ok; fail = 0; }
};
int main() {
	sink a, b; b.fail = 1;
	{ stdex::stream::replicator r; r.push_back(&a); r.push_back(&b); r.write("abc", 3); r.flush(); r.write("def", 3); }
	return a.d == "abcdef" && b.d == "abcdef" ? 0 : 1;
}
''', flags="-lpthread")
seed("S04-limit-zero", "S04", "stream.hpp", [("num_read = converter::read(data, static_cast<size_t>(read_limit));\n\t\t\t\t\tread_limit -= num_read;", "num_read = converter::read(data, static_cast<size_t>(read_limit));\n\t\t\t\t\tread_limit = 0;", 0)],
 "a read of more than the limit admits, from a stream that gives less than asked for", "the rest of what the limit admits cannot be read any more", r'''
#include <stdint.h>
#include <stdex/stream.hpp>
struct src : public stdex::stream::basic {
	size_t n = 10;
	size_t read(void* data, size_t length) override { size_t k = length < 3 ? length : 3; if (k > n) k = n; n -= k; memset(data, 'x', k); m_state = k || !length ? stdex::stream::state_t::ok : stdex::stream::state_t::eof; return k; }
};
int main() { src s; stdex::stream::limiter l(s, 8, 0); char b[16]; size_t n = 0; for (size_t k; (k = l.read(b, 16)) != 0;) n += k; return n == 8 ? 0 : 1; }
''')
seed("S12-reopen", "S12", "stream.hpp", [("m_state = state_t::ok;\n\t\t\t\t\tif (mode & mode_append)\n\t\t\t\t\t\tseek(0, seek_t::end);", "if (mode & mode_append)\n\t\t\t\t\t\tseek(0, seek_t::end);")],
 "a file object whose last operation or opening failed is used to open another file", "the state stays what it was although the file is open", r'''
#include <stdint.h>
#include <stdex/stream.hpp>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <unistd.h>
int main() {
	char t[] = "/tmp/seedXXXXXX"; if (!mkdtemp(t)) return 2;
	std::string f = std::string(t) + "/a"; using namespace stdex::stream; bool ok, bad;
	{
		file x((f + "/b").c_str(), mode_for_reading | mode_open_existing); bad = !x.ok();
		x.open(f.c_str(), mode_for_writing | mode_create); ok = x.ok();
	}
	unlink(f.c_str()); rmdir(t);
	return ok && bad ? 0 : 1;
}
''')
seed("T03-url-lost", "T03", "html.hpp", [("else { dst += '%'; dst += src[i - 1]; continue; }", "else { dst += '%'; continue; }")],
 "a percent sign followed by one hexadecimal digit and then something else", "the digit after the percent sign is lost", r'''
#include <stdint.h>
#include <stdex/html.hpp>
#include <string>
int main() { std::string s; stdex::html::url_unescape(s, std::string("100%a sure%4")); return s == "100%a sure%4" ? 0 : 1; }
''')
seed("T05-permutation-undo", "T05", "parser.hpp", [("return true;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\tel->invalidate();", "return true;\n\t\t\t\t\t\t\t}")],
 "an element that matches first but only fits later in the permutation", "an element once tried is taken for placed, and an incomplete permutation is accepted or a complete one missed", r'''
#include <stdint.h>
#include <stdex/parser.hpp>
#include <memory>
using namespace stdex::parser;
int main() {
	// a | ab, in any order with b: "abb" takes... the second element has to be placed again
	std::shared_ptr<basic_parser<char>> a(new basic_string<char>("a", 1)), ab(new basic_string<char>("ab", 2)), c(new basic_string<char>("c", 1));
	std::shared_ptr<basic_parser<char>> el[] = { a, ab, c };
	basic_permutation<char> p(el, 3);
	bool ok = p.match("abac", 0, 4) && p.interval.end == 4 && p.match("aabc", 0, 4) && p.match("caba", 0, 4) && !p.match("abc", 0, 3) && !p.match("aab", 0, 3) && !p.match("ab", 0, 2) && !p.match("a", 0, 1);
	return ok ? 0 : 1;
}
''')
seed("T07-max", "T07", "string.hpp", [("(value == max_ui_pre1 && digit <= max_ui_pre2)", "(value == max_ui_pre1 && digit <= max_ui_pre2 + (radix == 10))")],
 "a decimal number one above the largest of its type", "it is read as zero instead of the largest", r'''
#include <stdint.h>
#include <stdex/string.hpp>
int main() {
	return stdex::strtou32("4294967295", 10, nullptr, 10) == 4294967295u && stdex::strtou32("4294967296", 10, nullptr, 10) == 4294967295u && stdex::strtou64("18446744073709551616", 20, nullptr, 10) == UINT64_MAX ? 0 : 1;
}
''')
seed("T08-parts", "T08", "parser.hpp", [("this->value.s6_words[--j] = this->value.s6_words[--k];\n\t\t\t\t\t\tcomponents[j] = components[k];", "this->value.s6_words[--j] = this->value.s6_words[--k];")],
 "an IPv6 address with :: followed by further groups", "the parts reported are those of other groups than their values", r'''
#include <stdint.h>
#include <stdex/parser.hpp>
#include <memory>
using namespace stdex::parser;
int main() {
	std::shared_ptr<basic_parser<char>> d[16]; for (int i = 0; i < 16; ++i) d[i].reset(new basic_cu<char>("0123456789abcdef"[i]));
	std::shared_ptr<basic_parser<char>> sep(new basic_cu<char>(':'));
	basic_ipv6_address<char> p(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15], sep);
	if (!p.match("fe80::1:abc", 0, 11)) return 2;
	return p.components[7].start == 8 && p.components[7].end == 11 && p.components[6].start == 6 && p.components[6].end == 7 && p.components[0].start == 0 && p.components[0].end == 4 ? 0 : 1;
}
''')
seed("T09-stale-attributes", "T09", "parser.hpp", [("this->name.end = this->interval.end;\n\t\t\t\t\t\t\t\tthis->attributes.clear();", "this->name.end = this->interval.end;", 0)],
 "a comment recognized after a tag with attributes by the same object", "the comment has the attributes of the tag before it", r'''
#include <stdint.h>
#include <stdex/parser.hpp>
using namespace stdex::parser;
int main() { html_tag t; bool ok = t.match("<a b=c>", 0, 7) && t.attributes.size() == 1 && t.match("<!--x-->", 0, 8) && t.attributes.empty() && t.match("<?x?>", 0, 5) && t.attributes.empty(); return ok ? 0 : 1; }
''')
