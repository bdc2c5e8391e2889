/* C39: block partitions, connected components, integer sets and coarse topology */
#include "cb.h"
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/msmfem/dfs.h>
static int code = SHAPE; static int step(int n) { const int r = code % n; code /= n; return r; }
void harness(void)
{
#if WHICH == 0      /* uniform partition of a box */
    const int nd = step(2) + 1; int fine[2] = { 1, 1 }, crs[2] = { 1, 1 }; for (int d = 0; d < nd; ++d) { int a, b; fine[d] = nd == 1 ? 1 + step(6) : 1 + step(3); if (nd == 1) { ND_RANGE(b, 1, 6); } else ND_RANGE(b, 1, 3); ASSUME(b <= fine[d]); crs[d] = b; (void)a; }
    int idx[9], p[9]; const int n = fine[0] * fine[1]; int perm; ND_RANGE(perm, 0, n - 1); for (int i = 0; i < n; ++i) idx[i] = (i + perm) % n;
    CHECK(partition_unif_idx(nd, n, fine, crs, idx, p) == n, "returns the number of cells");
    int w[2][6], nw[2][6]; for (int d = 0; d < 2; ++d) for (int i = 0; i < 6; ++i) w[d][i] = nw[d][i] = 0;
    for (int i = 0; i < n; ++i) { CHECK(p[i] >= 0 && p[i] < crs[0] * crs[1], "blocks lie in the coarse box"); ASSUME(p[i] >= 0 && p[i] < crs[0] * crs[1]);
        for (int j = 0; j < n; ++j) { const int xi = idx[i] % fine[0], xj = idx[j] % fine[0], yi = idx[i] / fine[0], yj = idx[j] / fine[0];
            if (xi == xj) CHECK(p[i] % crs[0] == p[j] % crs[0], "blocks are boxes"); if (yi == yj) CHECK(p[i] / crs[0] == p[j] / crs[0], "blocks are boxes");
            if (xj == xi + 1) CHECK(p[j] % crs[0] - p[i] % crs[0] >= 0 && p[j] % crs[0] - p[i] % crs[0] <= 1, "blocks are consecutive along each axis"); if (yj == yi + 1) CHECK(p[j] / crs[0] - p[i] / crs[0] >= 0 && p[j] / crs[0] - p[i] / crs[0] <= 1, "blocks are consecutive along each axis"); }
        if (idx[i] / fine[0] == 0) w[0][p[i] % crs[0]]++; if (idx[i] % fine[0] == 0) w[1][p[i] / crs[0]]++; }
    for (int d = 0; d < 2; ++d) for (int b = 0; b < crs[d]; ++b) CHECK(w[d][b] == fine[d] / crs[d] || w[d][b] == fine[d] / crs[d] + 1, "blocks are balanced");
#elif WHICH == 1    /* compression, inversion and local numbering */
    const int n = 1 + step(5); int p[5], q[5]; for (int i = 0; i < n; ++i) { int t; ND_RANGE(t, 0, 5); p[i] = q[i] = t; }
    const int mx = partition_compress(n, p); int got = -1;
    for (int i = 0; i < n; ++i) { CHECK(p[i] >= 0 && p[i] <= mx && mx < n, "compressed numbers are in range"); if (p[i] > got) got = p[i]; for (int j = 0; j < n; ++j) CHECK((q[i] < q[j]) == (p[i] < p[j]), "compression keeps order and identity"); }
    CHECK(got == mx, "largest new number is returned"); ASSUME(mx >= 0 && mx < n);
    for (int b = 0; b < 5; ++b) if (b <= mx) { int f = 0; for (int i = 0; i < n; ++i) f |= p[i] == b; CHECK(f, "block numbers are contiguous"); }
    int *pi, *inv; CHECK(partition_allocate_inverse(n, 5, &pi, &inv) == n, "inverse is allocated"); partition_invert(n, p, pi, inv);
    int seen[5] = { 0, 0, 0, 0, 0 }; CHECK(pi[0] == 0 && pi[mx + 1] == n, "inverse lists every cell");
    for (int b = 0; b < 5; ++b) if (b <= mx) { CHECK(pi[b] < pi[b + 1] && pi[b + 1] <= n, "inverse rows are consecutive"); for (int k = 0; k < n; ++k) if (k >= pi[b] && k < pi[b + 1]) { CHECK(inv[k] >= 0 && inv[k] < n, "inverse lists cells"); ASSUME(inv[k] >= 0 && inv[k] < n); CHECK(p[inv[k]] == b && !seen[inv[k]], "inverse lists each cell once, in its block"); seen[inv[k]] = 1; } }
    int loc[5]; partition_localidx(mx + 1, pi, inv, loc); for (int i = 0; i < n; ++i) { CHECK(loc[i] >= 0 && pi[p[i]] + loc[i] < pi[p[i] + 1], "local number is within its block"); ASSUME(loc[i] >= 0 && pi[p[i]] + loc[i] < n); CHECK(inv[pi[p[i]] + loc[i]] == i, "local numbers invert the block lists"); }
    partition_deallocate_inverse(pi, inv);
#else               /* connected components of an undirected graph given by symmetric rows, self-connections anywhere in the row */
    int ia[NV + 1], ja[NV * NV], col[NV], work[2 * NV], nc, n = 0; unsigned r[NV]; for (int i = 0; i < NV; ++i) r[i] = 0;
    for (int i = 0; i < NV; ++i) for (int j = 0; j < i; ++j) if (step(2)) { r[i] |= 1u << j; r[j] |= 1u << i; }
    ia[0] = 0; for (int i = 0; i < NV; ++i) { int rot; ND_RANGE(rot, 0, NV - 1); const int s0 = n; int m[NV], k = 0; for (int j = 0; j < NV; ++j) if (r[i] >> j & 1) m[k++] = j; m[k++] = i; for (int j = 0; j < k; ++j) { int t = j + rot % k; if (t >= k) t -= k; ja[s0 + j] = m[t]; } n += k; ia[i + 1] = n; r[i] |= 1u << i; }
    for (int k = 0; k < NV; ++k) for (int i = 0; i < NV; ++i) if (r[i] >> k & 1) r[i] |= r[k];
    dfs(NV, ia, ja, &nc, col, work); int roots = 0; for (int i = 0; i < NV; ++i) { int first = 1; for (int j = 0; j < i; ++j) if (r[i] >> j & 1) first = 0; roots += first; }
    CHECK(nc == roots, "number of components"); for (int i = 0; i < NV; ++i) { CHECK(col[i] >= 0 && col[i] < nc, "component numbers in range"); for (int j = 0; j < NV; ++j) CHECK((col[i] == col[j]) == (r[i] >> j & 1), "vertices share a number exactly when connected"); }
#endif
    REACH();
}
