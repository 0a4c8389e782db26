// A heap that keeps what was released as it was, apart from the driver so that its compiler knows nothing of it.
#pragma once
#include <stddef.h>
#include <stdint.h>
void arena_begin();                               // from here on, memory comes from the arena
long long arena_released(uint8_t secret);         // how many bytes of released blocks hold the secret; ends it
void arena_fill(void* p, size_t n, uint8_t c);
void arena_watch(const void* p, size_t n);
long long arena_left(uint8_t secret);
