// Allocation stand-ins with guard words on both sides, checked on release (units map malloc/calloc/realloc/free of the code under test to these).
#ifndef GUARD_HPP
#define GUARD_HPP
#include "symutil.hpp"
#include <cstdlib>
#include <cstring>
static bool guardOk = true; static long guardLive = 0; enum { GW = 16 };
extern "C" {
void* cb_malloc(size_t n) { char* b = (char*)std::malloc(n + 3 * GW); std::memcpy(b, &n, sizeof n); std::memset(b + GW, 0x5c, GW); std::memset(b + 2 * GW + n, 0x5c, GW); ++guardLive; return b + 2 * GW; }
void cb_free(void* p) { if (!p) return; char* b = (char*)p - 2 * GW; size_t n; std::memcpy(&n, b, sizeof n); for (int i = 0; i < GW; ++i) if (b[GW + i] != 0x5c || b[2 * GW + n + i] != 0x5c) guardOk = false; --guardLive; std::free(b); }
void* cb_calloc(size_t n, size_t m) { void* p = cb_malloc(n * m); std::memset(p, 0, n * m); return p; }
void* cb_realloc(void* p, size_t n) { void* q = cb_malloc(n); if (p) { size_t o; std::memcpy(&o, (char*)p - 2 * GW, sizeof o); std::memcpy(q, p, o < n ? o : n); cb_free(p); } return q; }
}
inline void guardDone() { sym_check(guardOk, "no access leaves the allocated arrays"); sym_check(guardLive == 0, "all memory is released"); }
#endif
