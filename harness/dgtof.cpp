// C18: discontinuous Galerkin time-of-flight.  dgesv_ is replaced by a stub that records the assembled
// local system and returns arbitrary coefficients (degree 0: solves the 1x1 system), so that the residual
// of the assembled system is compared with the weak form for every coefficient vector, and the limiters
// act on arbitrary local solutions.
#include "symutil.hpp"
#define private public
#define protected public
#include <opm/core/transport/reorder/ReorderSolverInterface.hpp>
#include <opm/core/tof/TofDiscGalReorder.hpp>
#undef private
#undef protected
#include <opm/core/tof/TofReorder.hpp>
#include <opm/core/tof/DGBasis.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <iostream>
typedef std::vector<double> V;
static UnstructuredGrid* g; static V flux; static int dim, nb;
struct Call { V A, b, c; }; static std::vector<Call> calls; static bool prescribed; static int slope; static double cmax;
extern "C" void dgesv_(const int* n, const int* nrhs, double* A, const int* lda, int* piv, double* B, const int* ldb, int* info)
{
    const int N = *n; *info = 0;
    if (N == dim && *nrhs == 1) {   // corner velocities of the interpolation: concrete matrices
        for (int k = 0; k < N; ++k) { int p = k; for (int i = k; i < N; ++i) if (std::fabs(A[i + k * *lda]) > std::fabs(A[p + k * *lda])) p = i; for (int j = 0; j < N; ++j) std::swap(A[k + j * *lda], A[p + j * *lda]); std::swap(B[k], B[p]); for (int i = k + 1; i < N; ++i) { const double m = A[i + k * *lda] / A[k + k * *lda]; for (int j = k; j < N; ++j) A[i + j * *lda] -= m * A[k + j * *lda]; B[i] -= m * B[k]; } }
        for (int k = N - 1; k >= 0; --k) { for (int j = k + 1; j < N; ++j) B[k] -= A[k + j * *lda] * B[j]; B[k] /= A[k + k * *lda]; } return;
    }
    sym_check(*nrhs == 1 && *lda >= N && *ldb >= N && piv, "local system passed to LAPACK is well formed");
    Call k; k.A.assign(A, A + N * *lda); k.b.assign(B, B + N); k.c.resize(N);
    for (int i = 0; i < N; ++i) k.c[i] = prescribed ? (i == 0 || !cmax ? rvar2("c", calls.size(), i, -4, 4) : rvar2("c", calls.size(), i, -cmax, cmax)) : B[0] / A[0];
    if (LIM == 1 && prescribed && calls.empty()) { const double SL[2][4] = { { 0, 1, -0.5, 0.25 }, { 0, -1.5, 2, 0.5 } }; const int p = slope; for (int i = 1; i < N; ++i) k.c[i] = N == 4 ? k.c[0] + SL[p][i] : SL[p][i]; }
    if (LIM == 1 && N == 4 && !calls.empty()) k.c[3] = k.c[1] + k.c[2] - k.c[0] + 0.5;   // first cell: arbitrary level, two slopes
    for (int i = 0; i < N; ++i) B[i] = k.c[i]; calls.push_back(k);
}
static double out(int c, int i) { const int f = g->cell_faces[i]; return g->face_cells[2 * f] == c ? flux[f] : -flux[f]; }
static int nbr(int c, int i) { const int f = g->cell_faces[i]; return g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; }
static bool isx(int f, int d) { return sym_is_term(g->face_normals[dim * f + d]) || g->face_normals[dim * f + d] != 0; }
// tensor Simpson points of a cell (f<0) or face box
static void points(int c, int f, const V& h, std::vector<V>& p, V& w)
{
    const double s[3] = { -0.5, 0.0, 0.5 }, ws[3] = { 1.0 / 6, 2.0 / 3, 1.0 / 6 }; p.clear(); w.clear();
    for (int k = 0; k < (dim == 2 ? 9 : 27); ++k) { V x(dim); double wt = 1; bool use = true; for (int d = 0, r = k; d < dim; ++d, r /= 3) { const double* o = f >= 0 ? g->face_centroids + dim * f : g->cell_centroids + dim * c; if (f >= 0 && isx(f, d)) { use = use && r % 3 == 0; x[d] = o[d]; continue; } x[d] = o[d] + s[r % 3] * h[d]; wt *= ws[r % 3]; } if (use) { p.push_back(x); w.push_back(wt); } }
}
static double expand(const Opm::DGBasisInterface& B, const double* co, int c, const V& x) { V b(nb); B.eval(c, &x[0], &b[0]); double s = 0; for (int i = 0; i < nb; ++i) s += b[i] * co[i]; return s; }
extern "C" void harness()
{
    dim = DIM; const int deg = DEG, multi = KF ? 1 : deg ? sym_choice("multilinear", 2) : 0; std::cout.setstate(std::ios::failbit);
    V h(3, 1.0); if (LIM) { h[0] = 1; h[1] = 2; } else { h[0] = sym_choice("hx", 2) ? 0.5 : 1; h[1] = 2; h[2] = 1; }
    if (dim == 2) g = create_grid_cart2d(NX, NY, h[0], h[1]); else g = create_grid_hexa3d(NX, NY, 1, h[0], h[1], h[2]);
    const int nc = g->number_of_cells, nf = g->number_of_faces; flux.assign(nf, 0.0); V src(nc, 0.0), pv = rvec("pv", nc, 0.125, 4);
    // flow patterns: acyclic, signs fixed per pattern, magnitudes arbitrary
    const int LC[6][4] = { { 1, 0, 0, 0 }, { 1, 1, 0, 1 }, { 1, 0, 1, 1 }, { 1, 1, 2, 0 }, { 1, 0, 2, 1 }, { 2, 1, 0, 0 } }; const int lc = KF ? 1 : LIM == 1 ? sym_choice("case", 6) : 0;   // flow pattern, method, usage, first slope
    const int pat = LIM == 1 ? LC[lc][0] : sym_choice("pattern", 4); slope = LC[lc][3]; int id = 0; const double C[5] = { 1, 0.5, 2, 0.0005, 1.5 };
    for (int f = 0; f < nf; ++f) {
        const bool x = isx(f, 0), bnd = g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0; double sgn = 0;
        switch (pat) { case 0: sgn = x ? 1 : 0; break; case 1: sgn = x ? -1 : isx(f, 1) ? 1 : 0; break; case 2: sgn = bnd ? 0 : x ? 1 : -1; break; case 3: sgn = bnd && x ? -1 : x ? -1 : isx(f, 1) ? -1 : 1; break; }
        if (sgn == 0) continue; flux[f] = sgn * (LIM ? C[id % 5] : FIXQ ? C[id % 3] : rvar("q", f, 0.125, 2)); ++id;
    }
    for (int c = 0; c < nc; ++c) { double of = 0; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (out(c, i) > 0) of += 1; src[c] = of == 0 ? -(LIM || FIXQ ? 1.0 : rvar("s", c, 0.125, 2)) : c == 0 ? (LIM || FIXQ ? 0.75 : rvar("s", c, -2, 2)) : 0.0; }
    { double t = 0; for (int c = 0; c + 1 < nc; ++c) t += src[c]; src[nc - 1] = -t; }   // sources balance
    Opm::parameter::ParameterGroup p; p.disableOutput(); p.insertParameter("dg_degree", deg ? "1" : "0"); p.insertParameter("use_tensorial_basis", multi ? "true" : "false");
    int meth = 0, usage = 0;
#if LIM
    if (LIM == 1) { meth = LC[lc][1]; usage = LC[lc][2]; } else { const int mu = sym_choice("limiter", 6), MU[6] = { 0, 3, 2, 5, 1, 4 }; meth = MU[mu] % 2; usage = MU[mu] / 2; } const char* U[3] = { "DuringComputations", "AsPostProcess", "AsSimultaneousPostProcess" };
    p.insertParameter("use_limiter", "true"); p.insertParameter("limiter_method", meth ? "MinUpwindAverage" : "MinUpwindFace"); p.insertParameter("limiter_usage", U[usage]);
#endif
    const int cvi = !LIM && deg && CVI; if (cvi) p.insertParameter("use_cvi", "true");
    Opm::TofDiscGalReorder s(*g, p); V tof(3, 55.0); prescribed = deg > 0; cmax = 4; calls.clear(); nb = deg == 0 ? 1 : multi ? 1 << dim : 1 + dim;
    s.solveTof(&flux[0], &pv[0], &src[0], tof);
    sym_check((int)tof.size() == nb * nc, "coefficients per cell"); sym_check((int)calls.size() == nc, "every cell solved once"); if ((int)calls.size() != nc || (int)tof.size() != nb * nc) return;
    const std::vector<int>& seq = s.sequence(); const Opm::DGBasisInterface& B = *s.basis_func_;
    V raw(nb * nc); for (int k = 0; k < nc; ++k) for (int i = 0; i < nb; ++i) raw[nb * seq[k] + i] = calls[k].c[i];
#if DEG == 0
    V ref; Opm::TofReorder fv(*g); fv.solveTof(&flux[0], &pv[0], &src[0], ref); for (int c = 0; c < nc; ++c) sym_check_eq(tof[c], ref[c], "degree 0 equals the finite-volume time-of-flight");
    for (int c = 0; c < nc; ++c) { double l = src[c] < 0 ? -src[c] * tof[c] : 0.0, r = pv[c]; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const double q = out(c, i); if (q > 0) l += q * tof[c]; else if (nbr(c, i) >= 0) r -= q * tof[nbr(c, i)]; } sym_check_eq(l, r, "degree 0 upwind balance"); }
#elif !LIM
    for (int i = 0; i < nb * nc; ++i) sym_check_eq(tof[i], raw[i], "the local solution is the result");
    for (int k = 0; k < nc; ++k) {
        const int c = seq[k]; V R(nb, 0.0), b(nb), gr(nb * dim), v(dim, 0.0); std::vector<V> P; V W; const double* co = &raw[nb * c];
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const int f = g->cell_faces[i]; for (int d = 0; d < dim; ++d) if (isx(f, d)) v[d] += flux[f] / (2 * g->face_areas[f]); }
        points(c, -1, h, P, W); const double vol = h[0] * h[1] * (dim == 3 ? h[2] : 1.0);
        for (size_t q = 0; q < P.size(); ++q) { B.eval(c, &P[q][0], &b[0]); B.evalGrad(c, &P[q][0], &gr[0]); const double t = expand(B, co, c, P[q]); for (int j = 0; j < nb; ++j) { double vg = 0; for (int d = 0; d < dim; ++d) vg += v[d] * gr[dim * j + d]; R[j] += W[q] * (-vol * t * vg - pv[c] * b[j] + (src[c] < 0 ? -src[c] * t * b[j] : 0.0)); } }
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const double Q = out(c, i); if (Q == 0) continue; const int u = Q > 0 ? c : nbr(c, i); if (u < 0) continue; points(c, g->cell_faces[i], h, P, W);
            for (size_t q = 0; q < P.size(); ++q) { B.eval(c, &P[q][0], &b[0]); const double t = expand(B, &raw[nb * u], u, P[q]); for (int j = 0; j < nb; ++j) R[j] += W[q] * Q * t * b[j]; } }
        V r(nb); for (int j = 0; j < nb; ++j) { r[j] = -calls[k].b[j]; for (int i = 0; i < nb; ++i) r[j] += calls[k].A[j + nb * i] * co[i]; }
        double r1 = 0, R1 = 0; for (int j = 0; j < (multi ? nb : 1); ++j) { r1 += r[j]; R1 += R[j]; }
        const double tol = dim == 3 ? 1e-9 : 0;
        auto same = [&](double a, double e, const char* l) { if (tol == 0) sym_check_eq(a, e, l); else { sym_check_le(a - e, tol, l); sym_check_le(-tol, a - e, l); } };
        same(r1, R1, "cell-averaged upwind balance (test function one)"); if (!cvi && !multi) for (int j = 0; j < nb; ++j) same(r[j], R[j], "upwind weak form for every basis function");
    }
#else
    const V& up = usage == 2 ? raw : tof;   // upstream values seen by the limiter
    for (int c = 0; c < nc; ++c) {
        double tot = 0, in = 0, M = 0; int nu = 0; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const double q = out(c, i); if (q > 0) tot += q; else in -= q; } if (in > tot) tot = in;
        std::vector<V> K; for (int k = 0; k < 4; ++k) { V x(dim); for (int d = 0; d < dim; ++d) x[d] = g->cell_centroids[dim * c + d] + ((k >> d) & 1 ? 0.5 : -0.5) * h[d]; K.push_back(x); }
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { if (!(out(c, i) < -1e-3 * tot)) continue; const int u = nbr(c, i), f = g->cell_faces[i]; double m = 0; if (u >= 0) { if (meth) m = B.functionAverage(&up[nb * u]); else for (int n = g->face_nodepos[f]; n < g->face_nodepos[f + 1]; ++n) { const double* x = g->node_coordinates + dim * g->face_nodes[n]; const double t = expand(B, &up[nb * u], u, V(x, x + dim)); if (n == g->face_nodepos[f] || t < m) m = t; } } if (nu++ == 0 || m < M) M = m; }
        const double* o = &raw[nb * c]; const double* t = &tof[nb * c]; const double av = B.functionAverage(o); if (M < 0) M = 0;
        if (nu == 0 && !(av < 0)) { for (int i = 0; i < nb; ++i) sym_check_eq(t[i], o[i], "cells without significant inflow are not limited"); continue; }
        if (av < M) { for (int k = 0; k < 4; ++k) { if (multi && !KF) { sym_check_eq(expand(B, t, c, K[k]), expand(B, t, c, K[0]), "average below the upstream bound: flat solution"); if (k == 0) sym_check_lt(av, expand(B, t, c, K[k]), "average below the upstream bound is raised"); continue; } sym_check_eq(expand(B, t, c, K[k]), expand(B, t, c, K[0]), "average below the upstream bound: flat solution"); sym_check_eq(expand(B, t, c, K[k]), M, multi ? "multilinear basis: average below the upstream bound is raised to the bound" : "average below the upstream bound: flat solution at the bound"); } continue; }
        sym_check_eq(B.functionAverage(t), av, "limiting keeps the cell average");
        bool below = false; for (int k = 0; k < 4; ++k) if (expand(B, o, c, K[k]) < M) below = true;
        for (int k = 0; k < 4; ++k) sym_check_le(M, expand(B, t, c, K[k]), "limited values respect the upstream bound");
        if (!below) for (int i = 0; i < nb; ++i) sym_check_eq(t[i], o[i], "solutions within the bound are not changed");
        else { double mo = av, mn = av; for (int k = 0; k < 4; ++k) { const double eo = expand(B, o, c, K[k]); if (eo < mo) { mo = eo; mn = expand(B, t, c, K[k]); } }
            sym_check_eq(mn, M, "limiting is no stronger than needed"); for (int k = 0; k < 4; ++k) sym_check_eq((expand(B, t, c, K[k]) - av) * (mo - av), (expand(B, o, c, K[k]) - av) * (mn - av), "limiting scales the slope"); }
    }
#endif
    destroy_grid(g);
}
