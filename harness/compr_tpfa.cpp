// C08 through the class CompressibleTpfa: property evaluation, upwinding, gravity and well potentials, reported rates.
#include "press.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#ifndef WELLK
#define WELLK 0          // 0 none, 1 producer, 2 injector, 3 shut producer
#endif
typedef std::vector<double> V;
// A(p), mu(p) depend on pressure; relperm is the saturation
struct StubBo : public Opm::BlackoilPropertiesInterface
{
    int nc, dim; V poro, K, a, mu0, srho; double beta, gam;
    StubBo(int nc_, int dim_) : nc(nc_), dim(dim_), poro(nc_, 0.25), K(nc_ * dim_ * dim_, 0.0), srho(2)
    {
        for (int c = 0; c < nc; ++c) for (int d = 0; d < dim; ++d) K[c * dim * dim + d * dim + d] = 1.0;
        a = rvec("A", 4 * nc, 0.125, WELLK ? 1 : 4); mu0 = rvec("mu", 2 * nc, 0.125, 4); srho = WELLK ? V(2, 1.5) : rvec("srho", 2, 0.125, 4);
        beta = WELLK ? 0.125 : sym_real("beta", 0, 1); gam = 0.25;
    }
    int numDimensions() const { return dim; } int numCells() const { return nc; }
    const double* porosity() const { return &poro[0]; } const double* permeability() const { return &K[0]; }
    int numPhases() const { return 2; } const double* surfaceDensity() const { return &srho[0]; }
    void viscosity(const int n, const double* p, const double*, const int* cells, double* mu, double* dmu) const
    { for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) { mu[2 * i + k] = mu0[2 * cells[i] + k] * (1.0 + gam * p[i]); if (dmu) dmu[2 * i + k] = mu0[2 * cells[i] + k] * gam; } }
    void matrix(const int n, const double* p, const double*, const int* cells, double* A, double* dA) const
    { for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) { A[4 * i + k] = k == 1 ? 0.0 : a[4 * cells[i] + k] * (1.0 + beta * p[i]); if (dA) dA[4 * i + k] = k == 1 ? 0.0 : a[4 * cells[i] + k] * beta; } }
    void density(const int n, const double* A, double* rho) const
    { for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) { rho[2 * i + k] = 0; for (int q = 0; q < 2; ++q) rho[2 * i + k] += A[4 * i + 2 * k + q] * srho[q]; } }
    void relperm(const int n, const double* s, const int*, double* kr, double*) const { for (int i = 0; i < 2 * n; ++i) kr[i] = s[i]; }
    void capPress(const int n, const double*, const int*, double* pc, double*) const { for (int i = 0; i < 2 * n; ++i) pc[i] = 0; }
    void satRange(const int n, const int*, double* lo, double* hi) const { for (int i = 0; i < 2 * n; ++i) { lo[i] = 0; hi[i] = 1; } }
};
extern "C" void harness()
{
#if GRIDK == 2
    struct UnstructuredGrid* g = create_grid_cart2d(1, 2, 1.0, 1.0);
#else
    struct UnstructuredGrid* g = create_grid_cart3d(1, 1, 2);
#endif
    const int nc = g->number_of_cells, nf = g->number_of_faces, dim = g->dimensions;
    StubBo props(nc, dim); StubLin lin;
    double grav[3] = { 0, 0, 0 }; if (sym_choice("gravity", 2)) grav[dim - 1] = WELLK ? 0.25 : 10.0;   // density scales freely
    const double gr = grav[dim - 1];
    struct Wells* W = 0; double dref = sym_real("dref", -1, 1), wi[2] = { 0, 0 }; const int cells[2] = { 1, 0 };
    if (WELLK) {
        W = create_wells(2, 1, 2); wi[0] = sym_real("WI0", 0.125, 8); wi[1] = sym_real("WI1", 0.125, 8); double cf[2] = { 1, 0 }, d[2] = { 1, 0 };
        add_well(WELLK == 2 ? INJECTOR : PRODUCER, dref, 2, cf, cells, wi, "A", W);
        append_well_controls(BHP, 1.0, d, 0, W); set_current_control(0, WELLK == 3 ? -1 : 0, W);
    }
    Opm::BlackoilState st; st.init(*g, 2); st.surfacevol().assign(2 * nc, 0.5); Opm::WellState ws;
    for (int c = 0; c < nc; ++c) {
#if WELLK
        st.pressure()[c] = 3.0 + 2 * c;      // perforation drawdown still takes either sign
#else
        st.pressure()[c] = rvar("p", c, 0.5, 8);
#endif
        st.saturation()[2 * c] = WELLK ? 0.25 + 0.5 * c : rvar("s", c, 0.125, 0.875); st.saturation()[2 * c + 1] = 1.0 - st.saturation()[2 * c];
    }
    ws.init(W, st); if (W) ws.bhp()[0] = sym_real("bhp", 3, 8);
    Opm::CompressibleTpfa solver(*g, props, 0, lin, 1e300, 1e300, 0, grav, W);
    const V p = st.pressure();
    solver.solve(1.0, st, ws);
    // independent formulas
    std::vector<V> A(nc, V(4)), rho(nc, V(2)), mob(nc, V(2));
    for (int c = 0; c < nc; ++c) {
        props.matrix(1, &p[c], 0, &c, &A[c][0], 0); props.density(1, &A[c][0], &rho[c][0]);
        double mu[2]; props.viscosity(1, &p[c], 0, &c, mu, 0); for (int k = 0; k < 2; ++k) mob[c][k] = st.saturation()[2 * c + k] / mu[k];
    }
    for (int c = 0; c < nc; ++c) sym_check_eq(st.pressure()[c], p[c], "an accepted pressure is not changed");
    const V& q = st.faceflux();
    for (int f = 0; f < nf; ++f) {
        const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a < 0 || b < 0) { sym_check_eq(q[f], 0.0, "closed boundary face"); continue; }
        const double zf = g->face_centroids[dim * f + dim - 1], za = g->cell_centroids[dim * a + dim - 1], zb = g->cell_centroids[dim * b + dim - 1];
        const double T = 1.0;                        // two half transmissibilities of 2, exactly
        double s = 0;
        for (int k = 0; k < 2; ++k) {
            const double dphi = p[a] - p[b] + gr * (rho[a][k] * (zf - za) - rho[b][k] * (zf - zb));
            s += T * dphi * (dphi >= 0 ? mob[a][k] : mob[b][k]);
        }
        sym_check_eq(q[f], s, "face flux is the sum of phase fluxes with upstream mobilities");
    }
    if (W) for (int i = 0; i < 2; ++i) {
        const int c = cells[i]; double wdp = 0; const double zc = g->cell_centroids[dim * c + dim - 1];
        for (int k = 0; k < 2; ++k) wdp += st.saturation()[2 * c + k] * rho[c][k] * gr * (zc - dref);
        const double pp = ws.bhp()[0] + wdp, dp = pp - p[c];
        sym_check_eq(ws.perfPress()[i], pp, "perforation pressure is the bottom-hole pressure plus the well head");
        double m = mob[c][0] + mob[c][1];
        if (WELLK == 2 && dp > 0) { double mu[2]; props.viscosity(1, &pp, 0, &c, mu, 0); m = 1.0 / mu[0]; }
        sym_check_eq(ws.perfRates()[i], WELLK == 3 ? 0.0 : wi[i] * m * dp, "perforation rate is well index x mobility x drawdown");
    }
    if (W) destroy_wells(W); destroy_grid(g);
}
