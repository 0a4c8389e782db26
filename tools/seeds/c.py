seed("D01-front-full", "D01", "vector_queue.hpp", [("m_head = pos;\n\t\t\tif (m_count < m_size_max)\n\t\t\t\tm_count++;\n\t\t\treturn pos;\n\t\t}\n\n", "m_head = pos;\n\t\t\tif (m_count < m_size_max || m_head == tail())\n\t\t\t\tm_count++;\n\t\t\treturn pos;\n\t\t}\n\n", 1)],
 "push_front(value&&) on a full queue of capacity one", "the element count exceeds the capacity", r'''
#include <stdex/vector_queue.hpp>
#include <cstdio>
int main() {
	stdex::vector_queue<int> q(1);
	q.push_front(1); q.push_front(2);
	printf("%zu\n", q.size());
	return q.size() == 1 && q.front() == 2 ? 0 : 1;
}
''')
seed("D01-copy-wrapped", "D01", "vector_queue.hpp", [("for (size_type i = 0; i < other.m_count; i++) {\n\t\t\t\tsize_type i_l = other.abs(i);", "size_type i_e = std::min(other.m_head + other.m_count, other.m_size_max);\n\t\t\tfor (size_type i_l = other.m_head; i_l < i_e; i_l++) {")],
 "copying a queue whose elements wrap around the end of the storage", "the copy lacks the wrapped elements", r'''
#include <algorithm>
#include <stdex/vector_queue.hpp>
#include <cstdio>
int main() {
	stdex::vector_queue<int> q(3);
	for (int i = 1; i < 6; ++i) q.push_back(i);
	stdex::vector_queue<int> c(q);
	printf("%d %d %d\n", c[0], c[1], c[2]);
	return c.size() == 3 && c[0] == 3 && c[1] == 4 && c[2] == 5 ? 0 : 1;
}
''') if False else None
seed("T06-hint-last", "T06", "mapping.hpp", [("if (mapping.size() - 1 <= m || from < mapping[m + 1].from)", "if (mapping.size() - 2 <= m || from < mapping[m + 1].from)")],
 "src2dst with a hint at the last but one entry and a position behind the last entry (or a single entry: size()-2 wraps round)", "the position is converted by the wrong entry", r'''
#include <stdex/mapping.hpp>
#include <cstdio>
int main() {
	std::vector<stdex::mapping<size_t>> v{{0, 0}, {5, 1}, {9, 3}};
	size_t m = 1; size_t r = stdex::src2dst<size_t>(v, (size_t)20, m);
	printf("%zu\n", r);
	return r == 14 ? 0 : 1;
}
''')
seed("C05-late-phase", "C05", "watchdog.hpp", [("// Timeout\n\t\t\t\tm_callback();\n", "// Timeout\n\t\t\t\tm_callback();\n\t\t\t\t{\n\t\t\t\t\tconst std::lock_guard<std::mutex> lk(m_mutex);\n\t\t\t\t\tphase = m_phase;\n\t\t\t\t}\n")],
 "reset() called while the timeout callback is running, and never after", "that reset is forgotten: the watchdog sleeps and never fires again", r'''
#include <stdex/watchdog.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
int main() {
	static std::atomic<int> fired{0};
	stdex::watchdog<std::chrono::steady_clock>* w = nullptr;
	static std::atomic<bool> in{false};
	auto* wd = new stdex::watchdog<std::chrono::steady_clock>(std::chrono::milliseconds(100), [] { ++fired; if (fired == 1) { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(400)); } });
	while (!in) std::this_thread::yield();
	wd->reset();
	for (int i = 0; i < 100 && fired < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50));
	printf("%d\n", (int)fired); fflush(stdout); _Exit(fired >= 2 ? 0 : 1);
}
''', flags="")
seed("C06-steal", "C06", "pool.hpp", [("const std::lock_guard<spinlock> guard(ne.lock);\n\t\t\tif (!ne.list.empty()) {\n\t\t\t\tauto r = std::move(ne.list.front());\n\t\t\t\tne.list.pop_front();\n\t\t\t\treturn r;\n\t\t\t}\n\t\t\treturn T();", "{\n\t\t\t\tconst std::lock_guard<spinlock> guard(ne.lock);\n\t\t\t\tif (ne.list.empty())\n\t\t\t\t\treturn T();\n\t\t\t\tif (ne.list.size() > 1) {\n\t\t\t\t\tauto r = std::move(ne.list.front());\n\t\t\t\t\tne.list.pop_front();\n\t\t\t\t\treturn r;\n\t\t\t\t}\n\t\t\t}\n\t\t\t// Last item: keep the critical section short\n\t\t\tstd::list<T> last;\n\t\t\t{\n\t\t\t\tconst std::lock_guard<spinlock> guard(ne.lock);\n\t\t\t\tlast.swap(ne.list);\n\t\t\t}\n\t\t\treturn last.empty() ? T() : std::move(last.front());")],
 "an item pushed by another thread between the two critical sections of a pop() that found one item", "the other items of the list are lost", r'''
#include <stdex/pool.hpp>
#include <atomic>
#include <cstdio>
#include <memory>
#include <thread>
#include <vector>
static std::atomic<int> alive{0};
struct item { item() { ++alive; } ~item() { --alive; } };
int main() {
	// every item made is held by a thread or in the pool: none may be destroyed while the threads run
	static stdex::pool<std::unique_ptr<item>> p; static std::atomic<int> made{0};
	std::vector<std::thread> t;
	for (int k = 0; k < 8; ++k) t.emplace_back([] {
		for (int i = 0; i < 200000; ++i) {
			auto a = p.pop(0); if (!a) { a.reset(new item); ++made; }
			p.push(std::move(a), 0);
		}
	});
	for (auto& x : t) x.join();
	printf("%d of %d\n", (int)alive, (int)made);
	return alive == made ? 0 : 1;
}
''', flags="")
seed("C08-sign", "C08", "progress.hpp", [("m_host.m_host->set(combined_value);", "if (combined_value >= m_host.m_start) m_host.m_host->set(combined_value);")],
 "a worker's value below the combined start (a value set before the range, or a range raised later)", "the host is not told of that value", r'''
#include <stdex/progress.hpp>
#include <cstdio>
struct host : stdex::progress<int> { int v = -1; void set(int x) override { v = x; } };
int main() {
	host h; stdex::aggregate_progress<int> a(2, &h);
	a[0].set_range(10, 20); a[0].set(15); a[1].set_range(5, 8); a[1].set(-12);
	printf("%d\n", h.v);
	return h.v == 3 ? 0 : 1;
}
''') if False else None
