seed("T10-century", "T10", "chrono.hpp", [("int32_t yr = (4 * mtmp - 1) / 146097L;", "int32_t yr = 4 * mtmp / 146097L;")],
 "the last day of February at the end of a four-century cycle", "29 February 2000 (1600, 2400) comes back as another day", r'''
#include <stdint.h>
#include <stdex/chrono.hpp>
#include <cstdio>
int main() {
	int bad = 0;
	for (int y : { 1600, 2000, 2400, 1900 }) for (int m = 1; m <= 12; ++m) for (int d = 1; d <= 28 + (m == 2 && y % 400 == 0); ++d) {
		uint8_t dd, mm; int32_t yy; stdex::chrono::aosn_date::to_dmy(stdex::chrono::aosn_date::from_dmy((uint8_t)d, (uint8_t)m, y), &dd, &mm, &yy);
		if (dd != d || mm != m || yy != y) { printf("%d.%d.%d -> %d.%d.%d\n", d, m, y, dd, mm, (int)yy); bad = 1; }
	}
	return bad;
}
''')
seed("T10-timespec", "T10", "chrono.hpp", [("return tp.time_since_epoch().count() / one_second - 210866803200;", "return (tp.time_since_epoch().count() - 210866803200 * one_second) / one_second;")],
 "a timestamp before 1970 with milliseconds", "to_time_t rounds up instead of down, to a later second than the timestamp's", r'''
#include <stdint.h>
#include <stdex/chrono.hpp>
#include <cstdio>
int main() {
	using ts = stdex::chrono::aosn_timestamp; int bad = 0;
	for (int y : { 1969, 1970, 1600, 2024 }) for (int ms : { 0, 1, 999 }) {
		auto a = ts::from_dmy(31, 12, y, 23, 59, 58, (uint16_t)ms); auto b = ts::from_dmy(31, 12, y, 23, 59, 58, 0);
		if (ts::to_time_t(a) != ts::to_time_t(b)) { printf("%d %d\n", y, ms); bad = 1; }
	}
	return bad;
}
''')
seed("T11-tag-order", "T11", "langid.hpp", [("if (b_punct) return false;\n\t\t\t\t\tif (a_punct) return true;", "if (b_punct && !a) return false;\n\t\t\t\t\tif (a_punct && !b) return true;")],
 "tags where one continues with a letter and another with a dash", "order of tags is no longer what the table was built with for some spellings with underscores", r'''
#include <stdex/langid.hpp>
#include <cstdio>
#include <string>
int main() {
	int bad = 0;
	for (int i = 0; i < 65536; ++i) {
		const char* t = stdex::rfc1766_from_langid((stdex::langid)i); if (!t) continue;
		for (char p : { '_', '/', '{' }) {
			std::string s(t); for (auto& c : s) if (c == '-') c = p;
			auto l = stdex::langid_from_rfc1766(s.c_str()); auto u = stdex::rfc1766_from_langid(l);
			if (!u || std::string(t) != u) { printf("%s -> %x\n", s.c_str(), l); bad = 1; }
		}
	}
	return bad;
}
''')
seed("T11-last-group", "T11", "uuid.hpp", [("if (n > 0xffffffffffff) return false;", "if (n > 0x1000000000000) return false;")],
 "a last group of exactly 1000000000000", "a UUID with thirteen digits in its last group is taken", r'''
#include <stdex/uuid.hpp>
#include <cstdio>
int main() { uuid_t id; const char t[] = "{00000000-0000-0000-0000-1000000000000}"; return stdex::strtouuid(t, sizeof(t), id) ? 1 : 0; }
''')
seed("D02-self-move", "D02", "memory.hpp", [("m_own(other.m_own),\n\t\t\tm_ptr(other.m_ptr)\n\t\t{\n\t\t\tother.m_ptr = nullptr;", "m_own(other.m_own),\n\t\t\tm_ptr(other.m_ptr)\n\t\t{\n\t\t\t_Unreferenced_(other);", 1)],
 "a lent array pointer that is moved before it goes back", "the array is given back twice: the owner ends up with memory that was deleted", r'''
#include <stdex/memory.hpp>
#include <cstdio>
#include <utility>
int main() {
	std::unique_ptr<int[]> p(new int[3]{ 1, 2, 3 });
	{ auto a = stdex::get_ptr(p); { auto b(std::move(a)); (*(int**)b)[0] = 7; } }
	printf("%d\n", p ? p[0] : -1); return p && p[0] == 7 ? 0 : 1;
}
''')
seed("D02-closed", "D02", "system.hpp", [("TR::close(m_h);\n\t\t\t\tm_h = TR::invalid_handle;", "TR::close(m_h);")],
 "close() followed by something else getting the same number, then the object going away", "a handle somebody else has opened in the meantime is closed", r'''
#include <stdex/system.hpp>
#include <cstdio>
#include <fcntl.h>
int main() {
	int other;
	{ stdex::sys_object a(open("/dev/null", O_RDONLY)); a.close(); other = open("/dev/zero", O_RDONLY); }
	char c; ssize_t n = read(other, &c, 1); printf("%d\n", (int)n); return n == 1 ? 0 : 1;
}
''')
seed("D03-swap16", "D03", "endian.hpp", [("inline void byteswap(_Inout_ int16_t* value) { byteswap(reinterpret_cast<uint16_t*>(value)); }", "inline void byteswap(_Inout_ int16_t* value) { *value = static_cast<int16_t>((*value >> 8) | (*value << 8)); }")],
 "a negative 16-bit number swapped in place", "the high byte comes out as 0xff", r'''
#include <stdex/endian.hpp>
#include <cstdio>
int main() { int16_t x = (int16_t)0x8012; stdex::byteswap(&x); printf("%x\n", (unsigned)(uint16_t)x); return (uint16_t)x == 0x1280 ? 0 : 1; }
''')
seed("D03-mul", "D03", "math.hpp", [("if (!__builtin_mul_overflow(a, b, &result))\n\t\t\treturn result;", "result = a * b;\n\t\tif (!a || !b || (result >= a && result >= b))\n\t\t\treturn result;")],
 "two numbers whose product wraps around to something larger than both", "the wrapped product is returned instead of an exception", r'''
#include <stdint.h>
#include <stdex/math.hpp>
#include <cstdio>
int main() {
	int bad = 0;
	for (size_t a : { (size_t)3 << 62, (size_t)0x180000000, SIZE_MAX, (size_t)0x5555555555555556 }) for (size_t b : { (size_t)2, (size_t)3, (size_t)7, (size_t)0x100000003 })
		try { size_t r = stdex::mul(a, b); if ((unsigned __int128)a * b != r) { printf("%zx * %zx = %zx\n", a, b, r); bad = 1; } } catch (const std::invalid_argument&) { if (((unsigned __int128)a * b >> 64) == 0) bad = 1; }
	return bad;
}
''')
