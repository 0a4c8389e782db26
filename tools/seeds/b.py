seed("C01-quit-writer", "C01", "ring.hpp", [("m_quit = true;\n\t\t\t}\n\t\t\tm_head_moved.notify_one();\n", "m_quit = true;\n\t\t\t\tif (!empty() && !space()) return;\n\t\t\t}\n\t\t\tm_head_moved.notify_one();\n")],
 "quit() while the ring is completely full and the sender waits in back()", "quit() no longer wakes a sender blocked on a full ring: it hangs forever",
r'''
#include <stdex/ring.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
int main() {
	static stdex::ring<int, 4> r; static std::atomic<bool> done{false};
	auto [p, n] = r.back(); r.push(n);
	std::thread([] { r.back(); done = true; }).detach();
	std::this_thread::sleep_for(std::chrono::milliseconds(300));
	r.quit();
	for (int i = 0; i < 100 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50));
	puts(done ? "ok" : "sender still waits"); fflush(stdout); _Exit(done ? 0 : 1);
}
''', flags="")
seed("S02-shrinking-block", "S02", "stream.hpp", [("m_cache.region.end = std::max(m_cache.region.end, m_offset);", "m_cache.region.end = m_offset;")],
 "two writes in one cached block, the second one before the end of the first", "bytes already written behind the second write are dropped from the cache and never reach the file",
r'''
#include <stdex/stream.hpp>
#include <cstdio>
#include <cstring>
using namespace stdex::stream;
int main() {
	memory_file f; { cache c(f, 64); c.write("0123456789", 10); c.seekbeg(2); c.write("ab", 2); c.flush(); }
	f.seekbeg(0); char b[32] = {}; size_t n = f.read(b, 20); printf("%zu %s\n", n, b);
	return n == 10 && !memcmp(b, "01ab456789", 10) ? 0 : 1;
}
''')
seed("S02-bypass-size", "S02", "stream.hpp", [("size_t num_read = m_source->read(data, to_read - static_cast<size_t>(end_max % m_cache.capacity));", "size_t num_read = m_source->read(data, to_read);"), ],
 "a read spanning several cache blocks followed by reads and a write in its last block", "", r'''
int main() {}
''') if False else None
