// C06 / C07 / C08(flux): residual, Jacobian and flux reconstruction of the compressible two-point discretisation.
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/wells.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/pressure/tpfa/cfs_tpfa_residual.h>
#include <cstring>
#ifndef PROP
#define PROP 6
#endif
#ifndef NP
#define NP 2
#endif
#ifndef ROCK
#define ROCK 0
#endif
#ifndef NX
#define NX 2
#endif
enum { np = NP, np2 = NP * NP };
typedef std::vector<double> V;
// structural pattern of a black-oil fluid matrix (column major): water decoupled when three phases
static bool inPattern(int i, int j) { return (np == 2 && !(ROCK && i > j)) || i == j || (i > 0 && j > 0); }
static void symMatrix(const char* nm, int k, double* A, bool deriv)
{
    for (int j = 0; j < np; ++j) for (int i = 0; i < np; ++i) {
        A[i + np * j] = 0.0;
        if (inPattern(i, j)) A[i + np * j] = rvar2(nm, k, i + np * j, deriv ? (ROCK ? 0 : -1) : (ROCK && i == j) ? 0.125 : 0, deriv ? 1 : 4);
    }
}
static void assumeRegular(const double* A)
{
    sym_assume_lt(0.0, A[0]);
    if (np == 2) sym_assume_lt(0.0, A[0] * A[3] - A[1] * A[2]);
    else { sym_assume_lt(0.0, A[4]); sym_assume_lt(0.0, A[4] * A[8] - A[5] * A[7]); }
}
// x with A x = b
static V solveA(const double* A, const V& b)
{
    V x(np);
    if (np == 2) { const double d = A[0] * A[3] - A[1] * A[2]; x[0] = (b[0] * A[3] - b[1] * A[2]) / d; x[1] = (b[1] * A[0] - b[0] * A[1]) / d; }
    else { const double d = A[4] * A[8] - A[5] * A[7]; x[0] = b[0] / A[0]; x[1] = (b[1] * A[8] - b[2] * A[7]) / d; x[2] = (b[2] * A[4] - b[1] * A[5]) / d; }
    return x;
}
static V mul(const double* A, const V& v) { V r(np, 0.0); for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) r[i] += A[i + np * j] * v[j]; return r; }
struct Prob {
    struct UnstructuredGrid* g; struct Wells* W; int wk; int nc, nf, nw, nperf; double dt, target;
    V z, T, gc, mobf, Af, A0, dA, pv, pvb, Aw, mobw, wdp, srcf; struct compr_src* src; int hassrc;
    V F, J; std::vector<int> ia, ja; int singular; V Ac; V pvol;
    void run(const V& p)   // p: cell pressures then well pressures
    {
        Ac = V(nc * np2); V dAc(nc * np2); pvol = V(nc); V pv0(nc), rc(nc);
        for (int c = 0; c < nc; ++c) {
            for (int k = 0; k < np2; ++k) { Ac[c * np2 + k] = A0[c * np2 + k] + dA[c * np2 + k] * p[c]; dAc[c * np2 + k] = dA[c * np2 + k]; }
            pv0[c] = pv[c]; pvol[c] = ROCK ? pv[c] + pvb[c] * p[c] : pv[c]; rc[c] = pvb[c] / pvol[c];
        }
        struct CompletionData cd = { nw ? &wdp[0] : 0, nw ? &Aw[0] : 0, nw ? &mobw[0] : 0 };
        struct cfs_tpfa_res_wells cw = { W, &cd };
        struct cfs_tpfa_res_forces fo = { W ? &cw : 0, hassrc ? src : 0 };
        struct compr_quantities_gen cq = { np, &Ac[0], &dAc[0], &Af[0], &mobf[0], 0 };
        struct cfs_tpfa_res_data* h = cfs_tpfa_res_construct(g, W ? &cw : 0, np);
#if ROCK
        singular = cfs_tpfa_res_comprock_assemble(g, dt, &fo, &z[0], &cq, &T[0], &gc[0], &p[0], nw ? &p[nc] : 0, &pvol[0], &pv0[0], &rc[0], h);
#else
        singular = cfs_tpfa_res_assemble(g, dt, &fo, &z[0], &cq, &T[0], &gc[0], &p[0], nw ? &p[nc] : 0, &pv0[0], h);
#endif
        F.assign(h->F, h->F + nc + nw); ia.assign(h->J->ia, h->J->ia + nc + nw + 1); ja.assign(h->J->ja, h->J->ja + h->J->nnz); J.assign(h->J->sa, h->J->sa + h->J->nnz);
        cfs_tpfa_res_destroy(h);
    }
};
extern "C" void harness()
{
    Prob P;
    P.g = create_grid_cart2d(NX, 1, 1.0, 1.0);
    const int nc = P.nc = P.g->number_of_cells, nf = P.nf = P.g->number_of_faces;
    P.dt = sym_real("dt", 0, 4); sym_assume_lt(0.0, P.dt);
#ifdef WELL
    P.wk = WELL;
#else
    P.wk = sym_choice("well", 5);    // none bhp resv surf shut
#endif
    P.W = 0; P.target = sym_real("target", -4, 4); double distr[3] = { 0, 0, 0 };
    for (int p = 0; p < np; ++p) distr[p] = rvar("distr", p, 0, 1);
    double WI[2] = { 0, 0 };
    const int pc[2] = { nc - 1, 0 }; const int nperf = P.wk ? (NX > 2 ? 1 : 2) : 0;
    if (P.wk) {
        const double cf[3] = { 1, 0, 0 };
        for (int i = 0; i < nperf; ++i) { WI[i] = rvar("WI", i, 0, 4); sym_assume_lt(0.0, WI[i]); }
        P.W = create_wells(np, 1, nperf); add_well(INJECTOR, 0.0, nperf, cf, pc, WI, "A", P.W);
        append_well_controls(BHP, 1.0, distr, 0, P.W);
        append_well_controls(P.wk == 2 ? RESERVOIR_RATE : P.wk == 3 ? SURFACE_RATE : BHP, P.target, distr, 0, P.W);
        set_current_control(0, P.wk == 4 ? -1 : 1, P.W);
    }
    const int nw = P.nw = P.W ? 1 : 0; P.nperf = nperf;
    P.z = rvec("z", nc * np, 0, 4); P.T = rvec("T", nf, 0, 4); P.gc = rvec("gc", nf * np, -4, 4); P.mobf = rvec("mobf", nf * np, 0, 4);
    P.Af = V(nf * np2, 1.0); P.A0 = V(nc * np2); P.dA = V(nc * np2); P.Aw = V(nperf * np2); P.pv = rvec("pv", nc, ROCK ? 0.125 : 0, 4); P.pvb = V(nc, 0.0);
    for (int f = 0; f < nf; ++f) if (P.g->face_cells[2 * f] >= 0 && P.g->face_cells[2 * f + 1] >= 0) symMatrix("Af", f, &P.Af[f * np2], false);
    for (int c = 0; c < nc; ++c) { symMatrix("A", c, &P.A0[c * np2], false); symMatrix("dA", c, &P.dA[c * np2], true); sym_assume_lt(0.0, P.pv[c]); if (ROCK) P.pvb[c] = rvar("pvb", c, 0, 1); }
    for (int i = 0; i < nperf; ++i) symMatrix("Aw", i, &P.Aw[i * np2], false);
    P.mobw = rvec("mobw", nperf * np, 0, 4); P.wdp = rvec("wdp", nperf, -4, 4);
    P.hassrc = sym_choice("src", 2); double sf = sym_real("sf", -4, 4); double ssat[3] = { 1, 0, 0 };
    P.src = compr_src_allocate(np, 1); append_compr_source_term(0, np, sf, ssat, P.src);
    V p(nc + nw); for (int c = 0; c < nc; ++c) p[c] = rvar("p", c, ROCK ? 0 : -4, 4); if (nw) p[nc] = sym_real("bhp", -4, 4);
    for (int c = 0; c < nc; ++c) { V a(np2); for (int k = 0; k < np2; ++k) a[k] = P.A0[c * np2 + k] + P.dA[c * np2 + k] * p[c]; assumeRegular(&a[0]); if (ROCK) sym_assume_lt(0.0, P.pv[c] + P.pvb[c] * p[c]); }
    P.run(p);
    const V F = P.F;
    sym_check(P.singular == 0 || P.singular == 1, "assembly returns a flag");
    // ---- oracle quantities ----
    std::vector<V> vol(nc); // reservoir volumes of in/outflow
    for (int c = 0; c < nc; ++c) { V s(np); for (int i = 0; i < np; ++i) s[i] = -P.pv[c] * P.z[c * np + i]; vol[c] = s; }
    for (int f = 0; f < nf; ++f) {
        const int a = P.g->face_cells[2 * f], b = P.g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue;
        V v(np); for (int i = 0; i < np; ++i) v[i] = P.T[f] * P.mobf[f * np + i] * (p[a] - p[b] + P.gc[f * np + i]);
        V cf = mul(&P.Af[f * np2], v);
        for (int i = 0; i < np; ++i) { vol[a][i] += P.dt * cf[i]; vol[b][i] -= P.dt * cf[i]; }
    }
    double wtot = 0, wmob = 0;
    for (int i = 0; i < nperf; ++i) {
        const int c = pc[i]; V q(np); for (int k = 0; k < np; ++k) q[k] = WI[i] * P.mobw[i * np + k] * (p[nc] + P.wdp[i] - p[c]);
        V cq = mul(&P.Aw[i * np2], q);
        for (int k = 0; k < np; ++k) { if (P.wk != 4) vol[c][k] -= P.dt * cq[k]; wmob += WI[i] * P.mobw[i * np + k]; wtot += distr[k] * (P.wk == 3 ? cq[k] : q[k]); }
    }
#if PROP == 6
    for (int c = 0; c < nc; ++c) {
        V u = solveA(&P.Ac[c * np2], vol[c]);
        double r = P.pvol[c]; for (int i = 0; i < np; ++i) r += u[i];
        if (P.hassrc && c == 0) r -= P.dt * sf;
        sym_check_eq(F[c], r, "cell residual is the volume-weighted component balance");
    }
    if (P.wk == 1) sym_check_eq(F[nc], P.dt * wmob * (p[nc] - P.target), "pressure control equation");
    if (P.wk == 2) sym_check_eq(F[nc], P.dt * (wtot - P.target), "reservoir rate control equation");
    if (P.wk == 3) sym_check_eq(F[nc], P.dt * (wtot - P.target), "surface rate control equation");
    if (P.wk == 4) sym_check_eq(F[nc], 0.0, "stopped well equation");
    if (P.wk == 1 || P.wk == 4) sym_check(P.singular == 0, "no singularity adjustment with a pressure condition");
#endif
#if PROP == 7
    const V J = P.J;
    for (int r = 0; r < nc + nw; ++r) for (int c = 0; c < nc + nw; ++c) {
        if (P.wk == 4 && r == nc) continue;       // documented placeholder row of a stopped well
        double j = 0; for (int k = P.ia[r]; k < P.ia[r + 1]; ++k) if (P.ja[k] == c) j += J[k];
        double d;
        if (sym_is_symbolic()) d = sym_diff(F[r], p[c]);
        else { V a(p), b(p); const double h = 1e-4; a[c] -= h; b[c] += h; P.run(a); const double fa = P.F[r]; P.run(b); d = (P.F[r] - fa) / (2 * h); sym_native_tol(1e-5, 1e-6); }
        if (r == 0 && c == 0 && P.singular) d *= 2;   // documented adjustment
        sym_check_eq(j, d, "Jacobian entry is the derivative of the residual");
    }
#endif
#if PROP == 8
    V pmobc = rvec("pmobc", nc * np, 0, 4), ff(nf, 0.0), wf(nperf + 1, 0.0);
    for (int f = 0; f < nf; ++f) sym_assume_lt(0.0, P.mobf[f * np]);
    struct CompletionData cd = { nw ? &P.wdp[0] : 0, nw ? &P.Aw[0] : 0, nw ? &P.mobw[0] : 0 };
    struct cfs_tpfa_res_wells cw = { P.W, &cd }; struct cfs_tpfa_res_forces fo = { P.W ? &cw : 0, 0 };
    cfs_tpfa_res_flux(P.g, &fo, np, &P.T[0], &pmobc[0], &P.mobf[0], &P.gc[0], &p[0], nw ? &p[nc] : 0, &ff[0], nw ? &wf[0] : 0);
    for (int f = 0; f < nf; ++f) {
        const int a = P.g->face_cells[2 * f], b = P.g->face_cells[2 * f + 1];
        if (a < 0 || b < 0) { sym_check_eq(ff[f], 0.0, "closed boundary face"); continue; }
        double s = 0; for (int i = 0; i < np; ++i) s += P.T[f] * P.mobf[f * np + i] * (p[a] - p[b] + P.gc[f * np + i]);
        sym_check_eq(ff[f], s, "total face flux is the sum of the phase fluxes");
    }
    for (int i = 0; i < nperf; ++i) {
        const double dp = p[nc] + P.wdp[i] - p[pc[i]]; double m = 0;
        const bool inj = dp > 0; for (int k = 0; k < np; ++k) m += inj ? P.mobw[i * np + k] : pmobc[pc[i] * np + k];
        sym_check_eq(wf[i], P.wk == 4 ? 0.0 : WI[i] * m * dp, P.wk == 4 ? "stopped well reports no flow" : "perforation rate is well index x upstream mobility x drawdown");
    }
    // face pressures lie between the adjacent cell pressures
    V ht = rvec("ht", P.g->cell_facepos[nc], 0, 4), fp(nf, 0.0); for (size_t k = 0; k < ht.size(); ++k) sym_assume_lt(0.0, ht[k]);
    struct cfs_tpfa_res_data* h = cfs_tpfa_res_construct(P.g, P.W ? &cw : 0, np);
    cfs_tpfa_res_fpress(P.g, np, &ht[0], &P.mobf[0], &P.gc[0], h, &p[0], &ff[0], &fp[0]);
    for (int f = 0; f < nf; ++f) {
        const int a = P.g->face_cells[2 * f], b = P.g->face_cells[2 * f + 1];
        double n = 0, d = 0; for (int c = 0; c < nc; ++c) for (int k = P.g->cell_facepos[c]; k < P.g->cell_facepos[c + 1]; ++k) if (P.g->cell_faces[k] == f) { n += ht[k] * p[c]; d += ht[k]; }
        (void) a; (void) b; sym_check_eq(fp[f] * d, n, "face pressure is the transmissibility-weighted average");
    }
    cfs_tpfa_res_destroy(h);
#endif
    compr_src_deallocate(P.src); if (P.W) destroy_wells(P.W); destroy_grid(P.g);
}
