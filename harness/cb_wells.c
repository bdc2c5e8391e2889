/* C37: the wells container; call shapes are split into cases (SHAPE), data are arbitrary */
#include "cb.h"
#include <opm/core/wells.h>
#undef malloc
#undef realloc
#define NP 2
#define MW 4
#define MC 4
static int code; static int step(int n) { const int r = code % n; code /= n; return r; }
static double dv(void) { double x; ND_DOUBLE(x); ASSUME(x == x); return x; }
static int iv(void) { int x; ND_INT(x); return x; }
#ifdef FAILAT
static long calls = 0, failat = -1;
void *cb_malloc(size_t n) { return calls++ == failat ? NULL : malloc(n); }
void *cb_realloc(void *p, size_t n) { return calls++ == failat ? NULL : realloc(p, n); }
#endif
struct Shadow { int n, type[MW], nperf[MW], cell[MW][2], named[MW]; char name[MW][3]; double depth[MW], comp[MW][NP], WI[MW][2]; int nc[MW], cur[MW], ct[MW][MC], hasd[MW][MC]; double tg[MW][MC], di[MW][MC][NP]; } S;
#ifdef FAILAT
#define oom (calls > failat)
#else
#define oom 0
#endif
static void verify(const struct Wells *W)
{
    CHECK(W->number_of_wells == S.n && W->number_of_phases == NP, "number of wells and phases"); int pos = 0;
    for (int w = 0; w < S.n; ++w) {
        CHECK((int)W->type[w] == S.type[w] && W->depth_ref[w] == S.depth[w], "wells keep type and reference depth");
        for (int p = 0; p < NP; ++p) CHECK(W->comp_frac[NP * w + p] == S.comp[w][p], "wells keep their composition");
        CHECK(W->well_connpos[w] == pos && W->well_connpos[w + 1] == pos + S.nperf[w], "perforations of a well are contiguous, in order");
        for (int k = 0; k < S.nperf[w]; ++k) CHECK(W->well_cells[pos + k] == S.cell[w][k] && W->WI[pos + k] == S.WI[w][k], "wells keep perforated cells and well indices");
        pos += S.nperf[w];
        if (S.named[w] && (W->name[w] || !oom)) { CHECK(W->name[w] != NULL, "wells keep their name"); CHECK(W->name[w][0] == S.name[w][0] && W->name[w][1] == S.name[w][1] && (S.name[w][1] == 0 || W->name[w][2] == 0), "wells keep their name"); } else CHECK(W->name[w] == NULL || (oom && S.named[w]), "unnamed wells have no name");
        const struct WellControls *c = W->ctrls[w]; CHECK(c->num == S.nc[w] && c->current == S.cur[w], "wells keep number of controls and current control");
        for (int k = 0; k < S.nc[w]; ++k) { CHECK((int)c->type[k] == S.ct[w][k] && c->target[k] == S.tg[w][k], "controls keep type and target in order"); if (S.hasd[w][k]) for (int p = 0; p < NP; ++p) CHECK(c->distr[NP * k + p] == S.di[w][k][p], "controls keep their phase distribution"); }
    }
}
static int add(struct Wells *W, int rich)
{
    const int w = S.n; int t; ND_RANGE(t, 0, 1); const double d = dv(); double cf[NP], wi[2]; int ce[2]; char nm[3]; const int np = rich ? 2 : w % 2;
    for (int p = 0; p < NP; ++p) cf[p] = rich ? dv() : 0; for (int k = 0; k < 2; ++k) { wi[k] = rich ? dv() : 0; ce[k] = iv(); }
    { int a, b; ND_RANGE(a, 1, 127); ND_RANGE(b, 0, 127); nm[0] = (char)a; nm[1] = (char)b; nm[2] = 0; }
    const int ok = add_well((enum WellType)t, d, np, rich ? cf : NULL, np ? ce : NULL, rich ? wi : NULL, rich ? nm : NULL, W); if (!ok) return 0;
    S.type[w] = t; S.depth[w] = d; S.nperf[w] = np; S.named[w] = rich; S.nc[w] = 0; S.cur[w] = -1; for (int p = 0; p < NP; ++p) S.comp[w][p] = cf[p]; for (int k = 0; k < 2; ++k) { S.cell[w][k] = ce[k]; S.WI[w][k] = wi[k]; } memcpy(S.name[w], nm, 3); S.n++; return 1;
}
static int ctrl(struct Wells *W, int w, int withd)
{
    const int k = S.nc[w]; int t; ND_RANGE(t, 0, 2); const double tg = dv(); double di[NP]; for (int p = 0; p < NP; ++p) di[p] = dv();
    const int ok = append_well_controls((enum WellControlType)t, tg, withd ? di : NULL, w, W); if (!ok) return 0;
    S.ct[w][k] = t; S.tg[w][k] = tg; S.hasd[w][k] = withd; for (int p = 0; p < NP; ++p) S.di[w][k][p] = di[p]; S.nc[w]++; return 1;
}
void harness(void)
{
    code = SHAPE; S.n = 0;
#ifdef FAILAT   /* the FAILAT-th allocation fails */
    failat = SHAPE; struct Wells *W = create_wells(NP, 1, 1);
    if (W == NULL) { CHECK(calls > failat, "creation succeeds when memory is available"); REACH(); return; }
    for (int s = 0; s < 5; ++s) { verify(W); const long before = calls; int ok; if (s == 0 || s == 2 || S.n == 0) ok = add(W, 1); else ok = ctrl(W, 0, 1); if (!ok) CHECK(before <= failat && calls > failat, "additions succeed when memory is available"); }
    verify(W); REACH(); destroy_wells(W); return;
#else
    const int cap = (SHAPE / 6 + SHAPE) % 2; struct Wells *W = create_wells(NP, cap, 2 * cap); ASSUME(W != NULL);
    for (int s = 0; s < STEPS; ++s) {
        const int op = s == 0 ? (SHAPE / 3) % 2 : step(6); const int last = S.n - 1;
        if (op < 2) { CHECK(add(W, op == 0), "adding a well succeeds"); }
        else if (op == 2 || op == 3) { CHECK(ctrl(W, op == 2 ? last : 0, op == 2), "adding a control succeeds"); }
        else if (op == 4) { clear_well_controls(last, W); S.nc[last] = 0; S.cur[last] = W->ctrls[last]->current; }
        else { int c; ND_INT(c); ASSUME(c >= -3 && c < S.nc[0]); set_current_control(0, c, W); S.cur[0] = c; }
    }
    verify(W);
    struct Wells *C = clone_wells(W); CHECK(C != NULL && C != W, "cloning succeeds"); verify(C);
    /* the clone is independent */
    for (int w = 0; w < S.n; ++w) { C->type[w] = (enum WellType)(1 - C->type[w]); C->depth_ref[w] = 1234.5; for (int p = 0; p < NP; ++p) C->comp_frac[NP * w + p] = 77; for (int k = C->well_connpos[w]; k < C->well_connpos[w + 1]; ++k) { C->well_cells[k] = -9; C->WI[k] = -9; } if (C->name[w]) C->name[w][0] = 0; for (int k = 0; k < S.nc[w]; ++k) { C->ctrls[w]->target[k] = 5.5; C->ctrls[w]->distr[NP * k] = 9; } C->ctrls[w]->current = -77; }
    verify(W); destroy_wells(C); REACH(); destroy_wells(W);
#endif
}
