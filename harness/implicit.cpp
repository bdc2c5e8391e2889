// C46: residual and Jacobian of the implicit two-phase transport model, assembled through the real assembler over a mock rock-fluid model.
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/utility/ErrorMacros.hpp>
#include <iostream>
#include <opm/core/transport/implicit/NormSupport.hpp>
#include <opm/core/transport/implicit/JacobianSystem.hpp>
#include <opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp>
#include <opm/core/transport/implicit/ImplicitAssembly.hpp>
#include <opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp>
#include <opm/core/transport/implicit/SimpleFluid2pWrappingProps.hpp>
#include <opm/core/transport/implicit/transport_source.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
typedef std::vector<double> V;
// kr_w = s^2, kr_o = (1-s)^2 + e*(1-s), pc = p*(1-s) + r*(1-s)^2
struct Props : Opm::IncompPropertiesInterface {
    V mu, rho; int nc; double e, p, r, lo, hi;
    int numDimensions() const { return 2; } int numCells() const { return nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; } int numPhases() const { return 2; }
    const double* viscosity() const { return &mu[0]; } const double* density() const { return &rho[0]; } const double* surfaceDensity() const { return &rho[0]; }
    void relperm(const int n, const double* s, const int*, double* kr, double* d) const { for (int i = 0; i < n; ++i) { kr[2 * i] = s[2 * i] * s[2 * i]; kr[2 * i + 1] = s[2 * i + 1] * (s[2 * i + 1] + e); if (d) { d[4 * i] = 2 * s[2 * i]; d[4 * i + 1] = d[4 * i + 2] = 0; d[4 * i + 3] = 2 * s[2 * i + 1] + e; } } }
    void capPress(const int n, const double* s, const int*, double* pc, double* d) const { for (int i = 0; i < n; ++i) { const double w = 1 - s[2 * i]; pc[2 * i] = p * w + r * w * w; pc[2 * i + 1] = 0; if (d) { d[4 * i] = -(p + 2 * r * w); d[4 * i + 1] = d[4 * i + 2] = d[4 * i + 3] = 0; } } }
    void satRange(const int n, const int*, double* a, double* b) const { for (int i = 0; i < n; ++i) { a[2 * i] = lo; b[2 * i] = hi; a[2 * i + 1] = 1 - hi; b[2 * i + 1] = 1 - lo; } }
};
struct State { V s, q; const V& faceflux() const { return q; } const V& saturation() const { return s; } V& saturation() { return s; } };
typedef Opm::ImplicitTransportDefault::NewtonVectorCollection<V> Vecs;
typedef Opm::ImplicitTransportDefault::JacobianSystem<struct CSRMatrix, Vecs> Sys;
typedef Opm::SinglePointUpwindTwoPhase<Opm::SimpleFluid2pWrappingProps> Model;
extern "C" void harness()
{
    UnstructuredGrid* g = create_grid_cart2d(NX, NY, 1.0, 1.0); const int nc = g->number_of_cells, nf = g->number_of_faces; int in = 0; for (int f = 0; f < nf; ++f) in += g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0;
    Props pr; pr.nc = nc; pr.lo = 0; pr.hi = 1; pr.e = 0.5; const bool simple = SIMPLE; pr.mu = simple ? V(2, 1.0) : rvec("mu", 2, 0.5, 2); if (simple) pr.mu[1] = 2; pr.rho = rvec("rho", 2, 0, 10); pr.p = PC ? rvar("pc", 0, 0, 4) : 0.0; pr.r = PC > 1 ? 0.5 : 0.0; if (PC == 1) pr.p = 1.5;
    V pv = rvec("pv", nc, 0.1, 10), ht, x(nc); State st; for (int c = 0; c < nc; ++c) { st.s.push_back(PC ? 0.4 + 0.2 * c : rvar("s", c, 0.3, 0.7)); st.s.push_back(1 - st.s[2 * c]); x[c] = rvar("ds", c, -0.2, 0.2); } for (int f = 0; f < nf; ++f) st.q.push_back(rvar("q", f, -4, 4));
    const double dt = rvar("dt", 0, 0.01, 5); for (int i = 0; i < g->cell_facepos[nc]; ++i) ht.push_back(simple ? 1.0 + i % 3 : rvar("ht", i, 0.5, 2));
    double grav[2] = { GRAV ? rvar("gx", 0, -2, 2) : 0.0, GRAV ? -1.0 : 0.0 };
    struct TransportSource* src = create_transport_source(2, 2); double ss[2] = { 0.8, 0.2 }, zz[2] = { 0, 0 }; int ns = 0; V sq;
    if (SRC) for (int c = 0; c < nc; c += nc - 1) { sq.push_back(rvar("src", c, -3, 3)); ss[0] = rvar("ssat", c, 0, 1); ss[1] = 1 - ss[0]; append_transport_source(c, 2, 0.0, sq.back(), ss, zz, src); ++ns; if (nc == 1) break; }
    Opm::SimpleFluid2pWrappingProps fluid(pr); Model model(fluid, *g, pv, GRAV ? grav : 0, GUESS); model.initGravityTrans(*g, ht); Opm::ImplicitAssembly<Model> as(model); Sys sys;
    // the assembler is used again on the same system, as a solver does for every time step
    for (int rep = 0; rep < 2; ++rep) { as.createSystem(*g, sys); model.initStep(st, *g, sys); if (rep) break; V& xx = sys.vector().writableSolution(); xx.assign(nc, 0.125); model.initIteration(st, *g, sys); as.assemble(st, *g, src, 1.0, sys); }
    for (int c = 0; c < nc; ++c) sym_check_eq(sys.vector().solution()[c], GUESS ? 0.0 : 0.5 - st.s[2 * c], "initial guess");
    sys.vector().writableSolution() = x; const bool ok = model.initIteration(st, *g, sys); sym_check(ok, "saturations within range are accepted");
    Opm::ImplicitTransportDefault::MatrixZero<struct CSRMatrix>::zero(sys.writableMatrix()); std::fill(sys.vector().writableResidual().begin(), sys.vector().writableResidual().end(), 0.0);
    as.assemble(st, *g, src, dt, sys); const V F = sys.vector().residual(); const struct CSRMatrix& A = sys.matrix();
    sym_check((int)A.m == nc && (int)A.nnz == nc + 2 * in, "matrix has one entry per cell and neighbour pair side"); if ((int)A.m != nc) return;
    bool so = true; for (int i = 0; i < nc; ++i) for (int k = A.ia[i]; k < A.ia[i + 1]; ++k) { so = so && A.ja[k] >= 0 && A.ja[k] < nc && (k == A.ia[i] || A.ja[k - 1] < A.ja[k]); } sym_check(so, "columns are sorted and distinct");
    // Jacobian
    for (int i = 0; i < nc; ++i) for (int j = 0; j < nc; ++j) { double a = 0; for (int k = A.ia[i]; k < A.ia[i + 1]; ++k) if (A.ja[k] == j) a = A.sa[k];
        if (sym_is_symbolic()) sym_check_eq(a, sym_diff(F[i], x[j]), "Jacobian entry is the derivative of the residual");
        else { const double h = 1e-6; double r[2]; for (int w = 0; w < 2; ++w) { V y = x; y[j] += w ? h : -h; sys.vector().writableSolution() = y; model.initIteration(st, *g, sys); std::fill(sys.vector().writableResidual().begin(), sys.vector().writableResidual().end(), 0.0); V keep(A.sa, A.sa + A.nnz); as.assemble(st, *g, src, dt, sys); std::copy(keep.begin(), keep.end(), A.sa); r[w] = sys.vector().residual()[i]; }
            const double fd = (r[1] - r[0]) / (2 * h); V one(1); sys.vector().writableSolution() = x; if (std::fabs(fd - a) > 1e-4 * (1 + std::fabs(a))) { std::printf("  entry %d %d: %.12g difference quotient %.12g\n", i, j, a, fd); sym_check(0, "Jacobian entry is the derivative of the residual"); } } }
    // residual
    V mw(nc), mo(nc), pc(nc); for (int c = 0; c < nc; ++c) { const double s = st.s[2 * c] + x[c], w = 1 - s; mw[c] = s * s / pr.mu[0]; mo[c] = w * (w + pr.e) / pr.mu[1]; pc[c] = pr.p * w + pr.r * w * w; }
    double total = 0, stor = 0; V R(nc); for (int c = 0; c < nc; ++c) { total += F[c]; stor += pv[c] * x[c]; R[c] = pv[c] * x[c]; }
    for (int i = 0; i < ns; ++i) { const int c = i ? nc - 1 : 0; const double f = sq[i] > 0 ? src->saturation[2 * i] : mw[c] / (mw[c] + mo[c]); stor -= dt * sq[i] * f; R[c] -= dt * sq[i] * f; }
    sym_check_eq(total, stor, "interior fluxes cancel");
#if CHECKFLUX
    for (int f = 0; f < nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; double tt = 0, t, G = 0; int hf[2] = { 0, 0 }; for (int w = 0; w < 2; ++w) { const int c = w ? b : a; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (g->cell_faces[i] == f) { hf[w] = i; tt += 1 / ht[i]; } } t = 1 / tt; (void)hf;
        if (GRAV) for (int d = 0; d < 2; ++d) G += t * (pr.rho[0] - pr.rho[1]) * grav[d] * (g->cell_centroids[2 * b + d] - g->cell_centroids[2 * a + d]);
        G += t * (pc[b] - pc[a]); const double q = st.q[f]; bool found = false; double vw = 0;
        for (int i = 0; i < 2 && !found; ++i) for (int j = 0; j < 2 && !found; ++j) { const double W = mw[i ? b : a], O = mo[j ? b : a], w = q + O * G, o = q - W * G; if ((i ? !(w > 0) : !(w < 0)) && (j ? !(o > 0) : !(o < 0))) { found = true; vw = W / (W + O) * w; } }
        sym_check(found, "a consistent upstream pair exists"); R[a] += dt * vw; R[b] -= dt * vw; }
    for (int c = 0; c < nc; ++c) sym_check_eq(F[c], R[c], "residual is storage plus outflow of phases taken upstream minus sources");
#endif
    V y = x; model.finishStep(*g, y, st); for (int c = 0; c < nc; ++c) { sym_check_eq(st.s[2 * c] + st.s[2 * c + 1], 1.0, "saturations sum to one after the step"); }
    destroy_transport_source(src); destroy_grid(g);
}
