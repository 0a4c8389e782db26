MEM = r'''
#include <stdex/stream.hpp>
#include <cstdio>
#include <cstring>
#include <string>
using namespace stdex::stream;
'''
seed("S05-stale-offset", "S05", "stream.hpp", [("m_size = m_offset = 0;\n\t\t\t\twhile (m_head) {", "m_size = 0;\n\t\t\t\twhile (m_head) {")],
 "close() while the first block is partly read, then new data", "the first bytes written after close() are skipped, later reads run past the block", MEM + r'''
int main() {
	fifo f; char b[16] = {}; f.write("abcdef", 6); f.read(b, 3); f.close();
	f.write("012345", 6); memset(b, 0, sizeof(b)); size_t n = f.read(b, 2);
	printf("%zu %s\n", n, b); return n == 2 && !strcmp(b, "01") ? 0 : 1;
}
''')
