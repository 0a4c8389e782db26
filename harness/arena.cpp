#include "arena.hpp"
#include <stdlib.h>
#include <new>
static unsigned char* base; static size_t used; static bool on; constexpr size_t SIZE = 8u << 20;
static struct { unsigned char* p; size_t n; bool freed; } blocks[65536]; static size_t count;
static const volatile unsigned char* seen; static size_t seen_n;
static void* get(size_t n)
{
	if (!on) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
	size_t k = (n + 15) & ~(size_t)15; if (used + k > SIZE || count == 65536) throw std::bad_alloc();
	blocks[count] = { base + used, n, false }; ++count; used += k; return blocks[count - 1].p;
}
static void put(void* p)
{
	if (p && base && p >= base && p < base + SIZE) { for (size_t i = count; i--;) if (blocks[i].p == p) { blocks[i].freed = true; break; } return; }
	free(p);
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void arena_begin() { if (!base) base = (unsigned char*)malloc(SIZE); used = count = 0; on = true; }
long long arena_released(uint8_t c)
{
	on = false; long long n = 0;
	for (size_t i = 0; i < count; ++i) { if (!blocks[i].freed) { n += 1000000; continue; } for (size_t k = 0; k < blocks[i].n; ++k) n += ((volatile unsigned char*)blocks[i].p)[k] == c; }
	return n;
}
void arena_fill(void* p, size_t n, uint8_t c) { for (size_t i = 0; i < n; ++i) ((volatile unsigned char*)p)[i] = c; }
void arena_watch(const void* p, size_t n) { seen = (const volatile unsigned char*)p; seen_n = n; }
long long arena_left(uint8_t c) { long long n = 0; for (size_t i = 0; i < seen_n; ++i) n += seen[i] == c; return n; }
