seed("S08-enc-pending", "S08", "base64.hpp", [("if (is_last && m_num) {", "if ((is_last || size == 0) && m_num) {")],
 "an encoding session that gets an empty piece while one or two bytes are pending", "padding appears inside the text, so decoding stops early and the rest is lost",
r'''
#include <stdex/base64.hpp>
#include <cstdio>
int main() {
	stdex::base64_enc e; std::string t;
	e.encode(t, "ab", 2, false); e.encode(t, "", 0, false); e.encode(t, "cd", 2, true);
	stdex::base64_dec d; std::vector<char> v; bool last;
	d.decode(v, last, t.c_str(), t.size());
	printf("%s %zu\n", t.c_str(), v.size());
	return std::string(v.begin(), v.end()) == "abcd" ? 0 : 1;
}
''')
seed("S08-reader-offset", "S08", "base64.hpp", [("m_temp_off += to_read;\n\t\t\t\t\tm_temp_len -= to_read;", "m_temp_off = to_read;\n\t\t\t\t\tm_temp_len -= to_read;")],
 "three or more one-byte reads within one Base64 block", "base64_reader repeats the second byte of a block instead of giving the third",
r'''
#include <stdex/base64.hpp>
#include <cstdio>
int main() {
	stdex::stream::memory_file f; f.write("YWJjZGVmZ2hp", 12); f.seekbeg(0);
	stdex::base64_reader r(f); std::string s; char c;
	for (int i = 0; i < 9; ++i) { if (r.read(&c, 1) != 1) return 1; s += c; }
	printf("%s\n", s.c_str());
	return s == "abcdefghi" ? 0 : 1;
}
''')
seed("S01-grow", "S01", "stream.hpp", [("m_size = seekpos + num_copy", "m_size = seekpos + num_copy")], "", "", "") if False else None
