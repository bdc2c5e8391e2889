// C45: explicit and implicit single-point-upwind steps
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
extern "C" {
#include <opm/core/transport/minimal/spu_explicit.h>
#include <opm/core/transport/minimal/spu_implicit.h>
}
typedef std::vector<double> V;
// upwind water flux from cell 1 to cell 2: total flux v, gravity flux g (water driven 1 -> 2), mobilities w = water, o = oil
static double upwindWater(double v, double g, double w1, double o1, double w2, double o2, bool& zero)
{
    double w, o;
    if (v >= 0 && g >= 0) { w = w1; o = v - w * g > 0 ? o1 : o2; } else if (v <= 0 && g <= 0) { w = w2; o = v - w * g > 0 ? o1 : o2; }
    else if (v > 0) { o = o1; w = v + o * g > 0 ? w1 : w2; } else { o = o2; w = v + o * g > 0 ? w1 : w2; }
    zero = w + o == 0; return zero ? 0.0 : w / (w + o) * (v + o * g);
}
static V cellFluxes(UnstructuredGrid* g, const V& mob, const V& v, const V& gr)
{
    V r(g->number_of_cells, 0.0); for (int f = 0; f < g->number_of_faces; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; bool z; const double q = upwindWater(v[f], gr[f], mob[2 * a], mob[2 * a + 1], mob[2 * b], mob[2 * b + 1], z); r[a] += q; r[b] -= q; } return r;
}
#if MODE == 2
// exact dense solution of the (tiny, diagonally dominant) systems
static void solver(int n, int* ia, int* ja, double* sa, double* b, double* x)
{
    double A[3][4] = { { 0 } }; for (int i = 0; i < n; ++i) { for (int k = ia[i]; k < ia[i + 1]; ++k) A[i][ja[k]] += sa[k]; A[i][3] = b[i]; }
    for (int p = 0; p < n; ++p) for (int i = p + 1; i < n; ++i) { const double l = A[i][p] / A[p][p]; for (int j = p; j < n; ++j) A[i][j] -= l * A[p][j]; A[i][3] -= l * A[p][3]; }
    for (int p = n - 1; p >= 0; --p) { double s = A[p][3]; for (int j = p + 1; j < n; ++j) s -= A[p][j] * x[j]; x[p] = s / A[p][p]; }
}
#endif
extern "C" void harness()
{
    UnstructuredGrid* g = NX < 4 ? create_grid_cart3d(NX == 2 ? 1 : NX, 1, NX == 2 ? 2 : 1) : create_grid_cart2d(2, 2, 1.0, 1.0); const int nc = g->number_of_cells, nf = g->number_of_faces;
    V v(nf, 0.0), gr(nf, 0.0); const bool swap = nc == 2 && sym_choice("swap", 2); // face orientation
    for (int f = 0, k = 0; f < nf; ++f) { int* c = g->face_cells + 2 * f; if (c[0] >= 0 && c[1] >= 0) { if (swap) std::swap(c[0], c[1]); v[f] = rvar("v", k, -2, 2); gr[f] = GRAV ? rvar("g", k, -2, 2) : 0.0; ++k; } else { v[f] = rvar("bv", f, -2, 2); gr[f] = 3; } }
    V src(nc); for (int c = 0; c < nc; ++c) src[c] = c == 0 || c == nc - 1 ? rvar("q", c, -2, 2) : 0.0;
    const double dt = sym_real("dt", 0.0625, 4);
#if MODE == 0
    V s0 = rvec("s", nc, 0, 1), s(nc, 7.0), mob(2 * nc); for (int i = 0; i < nc; ++i) { mob[2 * i] = rvar("mw", i, 0, 4); mob[2 * i + 1] = rvar("mo", i, 0, 4); sym_assume_le(0.0625, mob[2 * i] + mob[2 * i + 1]); }
    V s0c = s0, mc = mob, vc = v, gc = gr, sc = src; spu_explicit(g, &s0[0], &s[0], &mob[0], &v[0], &gr[0], &src[0], dt);
    V q = cellFluxes(g, mc, vc, gc); double tot = 0, stot = 0;
    for (int i = 0; i < nc; ++i) { const double in = sc[i] > 0 ? sc[i] : sc[i] * mc[2 * i] / (mc[2 * i] + mc[2 * i + 1]); sym_check_eq(s[i], s0c[i] + dt * (in - q[i]), "explicit update is the time step times net upstream inflow plus source"); tot += s[i] - s0c[i]; stot += in; }
    sym_check_eq(tot, dt * stot, "interior exchange cancels in the total");
#elif MODE == 1
    // mobilities as affine functions of the saturations with arbitrary slopes
    V x(nc), s0 = rvec("s0", nc, 0, 1), a(2 * nc), d(2 * nc); for (int i = 0; i < nc; ++i) { x[i] = rvar("s", i, 0, 1); for (int p = 0; p < 2; ++p) { a[2 * i + p] = rvar2("m", i, p, 1, 3); d[2 * i + p] = rvar2("d", i, p, p ? -1 : 0, p ? 0 : 1); } }
    auto run = [&](const V& y, V& b, V& J) {
        V mob(2 * nc), dm = d; for (int i = 0; i < 2 * nc; ++i) mob[i] = a[i] + d[i] * y[i / 2];
        const int nhf = g->cell_facepos[nc]; std::vector<int> ia(nc + 1, -1), ja(nhf, -1); V sa(nhf, 9.0), yy = y; sparse_t S; S.m = S.n = nc; S.ia = &ia[0]; S.ja = &ja[0]; S.sa = &sa[0]; char work[6 * sizeof(double)] __attribute__((aligned(16))); b.assign(nc, 5.0);
        spu_implicit_assemble(g, &s0[0], &yy[0], &mob[0], &dm[0], &v[0], &gr[0], &src[0], dt, &S, &b[0], work);
        J.assign(nc * nc, 0.0); bool ok = ia[0] == 0; for (int i = 0; i < nc && ok; ++i) for (int k = ia[i]; k < ia[i + 1]; ++k) { if (ja[k] < 0 || ja[k] >= nc) { ok = false; break; } J[i * nc + ja[k]] += sa[k]; } sym_check(ok, "matrix structure");
    };
    V b, J; run(x, b, J); V mob(2 * nc); for (int i = 0; i < 2 * nc; ++i) mob[i] = a[i] + d[i] * x[i / 2];
    V q = cellFluxes(g, mob, v, gr); double tb = 0, ts = 0;
    for (int i = 0; i < nc; ++i) { const double in = src[i] > 0 ? src[i] : src[i] * mob[2 * i] / (mob[2 * i] + mob[2 * i + 1]); sym_check_eq(b[i], x[i] - s0[i] - dt * (in - q[i]), "implicit residual is accumulation minus net upstream inflow and source"); tb += b[i]; ts += x[i] - s0[i] - dt * in; }
    sym_check_eq(tb, ts, "interior exchange cancels in the total residual");
    for (int i = 0; i < nc; ++i) for (int j = 0; j < nc; ++j) sym_check_eq(J[i * nc + j], deriv_of([&](const V& y) { V bb, JJ; run(y, bb, JJ); return bb[i]; }, x, j), "matrix entry is the residual derivative");
#elif MODE == 2
    // whole implicit step: linear mobilities S and 1-S tabulated on one interval, admissible flow field
    V s0 = rvec("s0", nc, 0.125, 0.875), s = rvec("guess", nc, 0.125, 0.875); double tab[4] = { 0, 1, 1, 0 }; for (int f = 0; f < nf; ++f) sym_assume_le(0.0, v[f]);
    // incompressible flow along the chain: what enters a cell leaves it
    int k = 0; double prev = 0; for (int f = 0; f < nf; ++f) { const int a_ = g->face_cells[2 * f], b_ = g->face_cells[2 * f + 1]; if (a_ < 0 || b_ < 0) continue; if (k++) v[f] = prev; prev = v[f]; } src.assign(nc, 0.0); sym_assume_le(0.0625, prev); src[swap ? nc - 1 : 0] = prev; src[swap ? 0 : nc - 1] = -prev;
    const double nrm = spu_implicit(g, &s0[0], &s[0], 1.0, 0.0, 2, tab, &v[0], &gr[0], &src[0], dt, solver);
    sym_check_le(nrm, 1e-9, "implicit step converges"); V mob(2 * nc); for (int i = 0; i < nc; ++i) { mob[2 * i] = s[i]; mob[2 * i + 1] = 1 - s[i]; sym_check_le(0.0, s[i], "saturation in range"); sym_check_le(s[i], 1.0, "saturation in range"); }
    for (int i = 0; i < nc; ++i) { double q = 0; for (int f = 0; f < nf; ++f) { const int a_ = g->face_cells[2 * f], b_ = g->face_cells[2 * f + 1]; if (a_ < 0 || b_ < 0) continue; if (a_ == i) q += v[f] * s[a_]; if (b_ == i) q -= v[f] * s[a_]; } const double in = src[i] > 0 ? src[i] : src[i] * s[i]; sym_check_eq(s[i], s0[i] + dt * (in - q), "implicit solution satisfies the end-of-step balance"); }
#endif
    destroy_grid(g);
}
