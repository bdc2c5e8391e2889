/* C11: strongly connected components of every directed graph with NV vertices and at most NE edges (self-loops and repeated edges included) */
#include "cb.h"
#include <opm/core/transport/reorder/tarjan.h>
void harness(void)
{
    int ia[NV + 1], ja[NE + 1], vert[NV], comp[NV + 1], nc, work[3 * NV];
    ia[0] = 0; for (int i = 1; i <= NV; ++i) { int t; ND_RANGE(t, 0, NE); ia[i] = t; ASSUME(ia[i] >= ia[i - 1]); }
    for (int i = 0; i < NE; ++i) { int t; ND_RANGE(t, 0, NV - 1); ja[i] = t; }
    tarjan(NV, ia, ja, vert, comp, &nc, work);
    unsigned r[NV];                                   /* reachability closure */
    for (int i = 0; i < NV; ++i) { r[i] = 1u << i; for (int e = 0; e < NE; ++e) if (e >= ia[i] && e < ia[i + 1]) r[i] |= 1u << ja[e]; }
    for (int k = 0; k < NV; ++k) for (int i = 0; i < NV; ++i) if (r[i] >> k & 1) r[i] |= r[k];
    CHECK(nc >= 1 && nc <= NV && comp[0] == 0, "number of components"); ASSUME(nc >= 1 && nc <= NV);
    int at[NV], seen = 0;
    for (int i = 0; i < NV; ++i) at[i] = -1;
    for (int c = 0; c < NV; ++c) if (c < nc) { CHECK(comp[c + 1] > comp[c] && comp[c + 1] <= NV, "components are consecutive and not empty"); for (int p = 0; p < NV; ++p) if (p >= comp[c] && p < comp[c + 1]) { const int v = vert[p]; CHECK(v >= 0 && v < NV && at[v] < 0, "every vertex is listed once"); ASSUME(v >= 0 && v < NV); at[v] = c; ++seen; } }
    CHECK(comp[nc] == NV && seen == NV, "every vertex is listed once");
    for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) {
        if (r[i] >> j & 1) CHECK(at[j] <= at[i], "a vertex follows everything it depends on");
        CHECK((at[i] == at[j]) == ((r[i] >> j & 1) && (r[j] >> i & 1)), "components are the strongly connected sets");
    }
    REACH();
}
