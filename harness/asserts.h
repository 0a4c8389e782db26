// Force-included where the code's own assertions are to be decided, too: they stop the program as they do in a debug build
// elsewhere (no debug build is implemented for this system).
#pragma once
#ifdef __cplusplus
#include <stdio.h>
#include <stdlib.h>
#include <stdex/assert.hpp>
#undef stdex_assert
#define stdex_assert(e) { if (!(e)) { fprintf(stderr, "%s:%d: assertion failed: %s\n", __FILE__, __LINE__, #e); abort(); } ((void)0); }
#endif
