// C39: splitting by connectivity, integer sets and coarse topology.  Topologies are split into cases; the hash function is symbolic.
#include "symutil.hpp"
#include <cstdlib>
#include <cstring>
extern "C" {
#include <opm/core/pressure/msmfem/hash_set.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/partition.h>
// allocations with guard words on both sides, checked when freed; contents start undefined (MALLOC_PERTURB_)
static bool guardOk = true; static long live = 0; enum { G = 16 };
void* cb_malloc(size_t n) { char* b = (char*)std::malloc(n + 3 * G); std::memcpy(b, &n, sizeof n); std::memset(b + G, 0x5c, G); std::memset(b + 2 * G + n, 0x5c, G); ++live; return b + 2 * G; }
void cb_free(void* p) { if (!p) return; char* b = (char*)p - 2 * G; size_t n; std::memcpy(&n, b, sizeof n); for (int i = 0; i < G; ++i) if (b[G + i] != 0x5c || b[2 * G + n + i] != 0x5c) guardOk = false; --live; std::free(b); }
void* cb_realloc(void* p, size_t n) { void* q = cb_malloc(n); if (p) { size_t o; std::memcpy(&o, (char*)p - 2 * G, sizeof o); std::memcpy(q, p, o < n ? o : n); cb_free(p); } return q; }
// hash: any function of the key into [0,1)
double cb_fmod(double x, double y) { static std::vector<double> k, v; sym_check(y == 1.0, "hash takes the fraction"); for (size_t i = 0; i < k.size(); ++i) if (k[i] == x) return v[i]; k.push_back(x); v.push_back(rvar("hash", (int)k.size(), 0.0, 0.9999)); return v.back(); }
double cb_floor(double x) { int k = 0; while (k < 64 && !(x < k + 1)) ++k; return k; }
}
typedef std::vector<int> I;
static void done() { sym_check(guardOk, "no access leaves the allocated arrays"); sym_check(live == 0, "all memory is released"); }
// distinct undirected pairs of cells, and an outside face
static I pairs(int n) { I e; for (int i = 1; i < n; ++i) for (int j = 0; j < i; ++j) { e.push_back(i % 2 ? i : j); e.push_back(i % 2 ? j : i); } e.push_back(-1); e.push_back(n - 1); e.push_back(0); e.push_back(-1); return e; }
extern "C" void harness()
{
#if WHICH == 0
    const int n = NV, nn = NN; I nb, p(n, 0), e = pairs(n); int mx = 0;
    for (int i = 1; i < n; ++i) { p[i] = sym_choice(nme("p", i).c_str(), NB); if (p[i] > mx) mx = p[i]; }
    for (int i = 0, lo = 0; i < nn; ++i) { lo += sym_choice(nme("e", i).c_str(), (int)e.size() / 2 - 1 - lo); const int k = i % 2 && e[2 * lo] < 0 ? lo + 1 : lo; nb.push_back(e[2 * k]); nb.push_back(e[2 * k + 1]); }
    const I q = p; const int ret = partition_split_disconnected(n, nn, &nb[0], &p[0]);
    std::vector<unsigned> r(n); for (int i = 0; i < n; ++i) r[i] = 1u << i; for (int k = 0; k < nn; ++k) { const int a = nb[2 * k], b = nb[2 * k + 1]; if (a >= 0 && b >= 0 && q[a] == q[b]) { r[a] |= 1u << b; r[b] |= 1u << a; } }
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (r[i] >> k & 1) r[i] |= r[k];
    int roots = 0, nblk = 0; for (int i = 0; i < n; ++i) { int first = 1, fb = 1; for (int j = 0; j < i; ++j) { if (r[i] >> j & 1) first = 0; if (q[i] == q[j]) fb = 0; } roots += first; nblk += fb; }
    sym_check(ret == roots - nblk, "number of new blocks"); bool ok = true, in = true, old = true;
    for (int i = 0; i < n; ++i) { in = in && p[i] >= 0 && p[i] <= mx + ret; for (int j = 0; j < n; ++j) ok = ok && (p[i] == p[j]) == !!(r[i] >> j & 1); }
    for (int b = 0; b <= mx; ++b) { bool had = false, has = false; for (int i = 0; i < n; ++i) { had = had || q[i] == b; has = has || (q[i] == b && p[i] == b); } old = old && had == has; }
    sym_check(in, "new block numbers follow the old ones"); sym_check(ok, "cells share a block exactly when connected within their old block"); sym_check(old, "old block numbers stay in use"); done();
#elif WHICH == 1
    struct hash_set* s = hash_set_allocate(sym_choice("size", 4)); I k; int n = 0; static const int K[4] = { 0, 7, 1234567, 3 };
    sym_check(s && hash_set_count_elms(s) == 0, "new set is empty");
    for (int i = 0; i < NI; ++i) { const int c = sym_choice(nme("key", i).c_str(), n + 1 < 4 ? n + 1 : 4), t = K[c]; bool old = false; for (int j = 0; j < i; ++j) old = old || k[j] == t; n += !old; k.push_back(t); sym_check(hash_set_insert(t, s) == t, "insertion returns the key"); sym_check((int)hash_set_count_elms(s) == n, "set size is the number of distinct keys");
        bool all = (s->m & (s->m - 1)) == 0; for (int j = 0; j <= i; ++j) { int f = 0; for (size_t a = 0; a < s->m; ++a) f += s->s[a] == k[j]; all = all && f == 1; } for (size_t a = 0; a < s->m; ++a) { bool f = s->s[a] == -1; for (int j = 0; j <= i; ++j) f = f || s->s[a] == k[j]; all = all && f; } sym_check(all, "set holds exactly the inserted keys, once each"); }
    hash_set_deallocate(s); hash_set_deallocate(0); done();
#else
    const int n = NV, nf = NF, ex = sym_choice("expected", 3); I p(n, 0), nb, e = pairs(n); int mx = 0; const int ne = (int)e.size() / 2;
    for (int i = 1; i < n; ++i) { p[i] = sym_choice(nme("p", i).c_str(), 3); if (p[i] > mx) mx = p[i]; } for (int b = 0; b <= mx; ++b) { bool f = false; for (int i = 0; i < n; ++i) f = f || p[i] == b; if (!f) sym_stop(); }
    for (int i = 0; i < nf; ++i) { const int k = sym_choice(nme("e", i).c_str(), ne); nb.push_back(e[2 * k + (i & 1)]); nb.push_back(e[2 * k + 1 - (i & 1)]); }
    struct coarse_topology* t = coarse_topology_create(n, nf, ex, &p[0], &nb[0]); sym_check(t != 0 && t->nblocks == mx + 1, "number of blocks"); if (!t) return;
    I hi(nf), lo(nf), hits(nf, 0); for (int f = 0; f < nf; ++f) { const int a = nb[2 * f], b = nb[2 * f + 1], x = a < 0 ? -1 : p[a], y = b < 0 ? -1 : p[b]; hi[f] = x > y ? x : y; lo[f] = x > y ? y : x; }
    bool sep = true, any = true, sub = true, list = t->blkfacepos[0] == 0, inc = true; sym_check(t->nfaces >= 0 && t->nfaces <= nf, "number of coarse faces"); sym_check((t->subfacepos != 0) == (ex > 0 && t->nfaces > 0), "fine faces are listed when requested");
    for (int c = 0; c < t->nfaces; ++c) { const int x = t->neighbours[2 * c], y = t->neighbours[2 * c + 1], h = x > y ? x : y, l = x > y ? y : x; sep = sep && x != y && x >= 0 && y >= -1 && h <= mx; int cnt = 0;
        for (int f = 0; f < nf; ++f) if (hi[f] == h && lo[f] == l) { ++cnt; hits[f]++; if (ex > 0) { int w = 0; for (int k = t->subfacepos[c]; k < t->subfacepos[c + 1]; ++k) w += t->subfaces[k] == f; sub = sub && w == 1; } }
        any = any && cnt > 0; if (ex > 0) sub = sub && t->subfacepos[c + 1] - t->subfacepos[c] == cnt && t->subfacepos[0] == 0; int wx = 0, wy = 0, wo = 0; for (int b = 0; b <= mx; ++b) for (int k = t->blkfacepos[b]; k < t->blkfacepos[b + 1]; ++k) if (t->blkfaces[k] == c) { if (b == x) ++wx; else if (b == y) ++wy; else ++wo; } list = list && wx == 1 && wy == (y >= 0) && wo == 0; }
    for (int f = 0; f < nf; ++f) inc = inc && hits[f] == (hi[f] != lo[f]);
    sym_check(sep, "coarse faces separate two different blocks"); sym_check(any, "blocks share a coarse face only if a fine face lies between them"); sym_check(sub, "a coarse face lists exactly its fine faces"); sym_check(list, "a coarse face is listed once by each of its blocks"); sym_check(inc, "every fine face between blocks belongs to one coarse face");
    coarse_topology_destroy(t); done();
#endif
}
