// C12, C13: two-phase reordering transport and gravity segregation.
// The scalar root finder is the subject of C15.  In the symbolic build it is replaced by one that returns the
// prescribed end-of-step saturation of the cell it is asked for, after checking that the function handed to it
// vanishes there and that the bracket is proper; the native build uses the real root finder.
#include "symutil.hpp"
#ifdef SYM_SYMBOLIC
#define RegulaFalsi RealRegulaFalsi
#include <opm/core/utility/RootFinders.hpp>
#undef RegulaFalsi
double symRoot(double at_target, double at_a, double at_b, double a, double b, double target);
int symLastCell(); double symTarget(int cell);
extern bool g_real;
namespace Opm {
template <class P> struct RegulaFalsi
{
    template <class F> static double find(const F& f, double a, double b) { f(0.5 * (a + b)); const double t = symTarget(symLastCell()); return symRoot(f(t), f(a), f(b), a, b, t); }
    template <class F> static double solve(const F& f, const double a, const double b, const int maxit, const double tol, int& it) { if (g_real) return RealRegulaFalsi<P>::solve(f, a, b, maxit, tol, it); it = 1; return find(f, a, b); }
    template <class F> static double solve(const F& f, const double guess, const double a, const double b, const int maxit, const double tol, int& it) { if (g_real) return RealRegulaFalsi<P>::solve(f, guess, a, b, maxit, tol, it); it = 1; return find(f, a, b); }
};
}
#else
#include <opm/core/utility/RootFinders.hpp>
#endif
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#if PART == 12 || PART == 13
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp>
#else
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp>
#endif
typedef std::vector<double> V;
bool g_real = false; static int lastcell = -1; static V TGT; static bool checked = true; static std::vector<int> visits; static int need = 0;
int symLastCell() { return lastcell; } double symTarget(int c) { return TGT[c]; }
double symRoot(double ft, double fa, double fb, double a, double b, double t)
{
    const int c = lastcell; bool all = true; for (size_t i = 0; i < visits.size(); ++i) all = all && ((int)i == c || visits[i] >= need); ++visits[c];
    if (all || !checked) sym_check_eq(ft, 0.0, "cell balance at the end-of-step saturation");
    sym_check_le(fa, 0.0, "root is bracketed"); sym_check_le(0.0, fb, "root is bracketed"); sym_check_le(a, t, "root lies in the searched range"); sym_check_le(t, b, "root lies in the searched range");
    return t;
}
class Props : public Opm::IncompPropertiesInterface
{
public:
    int nc, dim; V mu, rho, perm, por, lo, hi; int kr;
    int numDimensions() const { return dim; } int numCells() const { return nc; } const double* porosity() const { return &por[0]; } const double* permeability() const { return &perm[0]; } int numPhases() const { return 2; }
    const double* viscosity() const { return &mu[0]; } const double* density() const { return &rho[0]; } const double* surfaceDensity() const { return &rho[0]; }
    void k(double s, int c, double* r) const { const bool q = kr == 2 || (kr == 1 && c % 2); r[0] = q ? s * s : s; r[1] = q ? (1 - s) * (1 - s) : 1 - s; }
    void relperm(const int n, const double* s, const int* cells, double* r, double*) const { for (int i = 0; i < n; ++i) { lastcell = cells[i]; k(s[2 * i], cells[i], r + 2 * i); } }
    void capPress(const int, const double*, const int*, double*, double*) const {}
    void satRange(const int n, const int* cells, double* smin, double* smax) const { for (int i = 0; i < n; ++i) { smin[2 * i] = lo[cells[i]]; smax[2 * i] = hi[cells[i]]; smin[2 * i + 1] = 1 - hi[cells[i]]; smax[2 * i + 1] = 1 - lo[cells[i]]; } }
    double ff(double s, int c) const { double r[2]; k(s, c, r); return r[0] / mu[0] / (r[0] / mu[0] + r[1] / mu[1]); }
};
#if PART == 14 || PART == 15
// immiscible compressible fluid: cell-wise formation factors and viscosities, both depending on the cell's own pressure
class BProps : public Opm::BlackoilPropertiesInterface
{
public:
    const Props& q; const double* press; BProps(const Props& q_) : q(q_) {}
    int numDimensions() const { return q.dim; } int numCells() const { return q.nc; } const double* porosity() const { return &q.por[0]; } const double* permeability() const { return &q.perm[0]; } int numPhases() const { return 2; }
    static double b(double p, int k) { return 0.5 + (k ? 0.5 : 0.25) * p; } static double visc(double p, int k) { return k ? 1 + 0.25 * p : 2 - 0.25 * p; }
    void viscosity(const int n, const double* p, const double*, const int*, double* mu, double*) const { for (int i = 0; i < 2 * n; ++i) mu[i] = q.kr ? visc(p[i / 2], i % 2) : 1.0; }
    void matrix(const int n, const double* p, const double*, const int*, double* A, double*) const { for (int i = 0; i < n; ++i) { A[4 * i] = b(p[i], 0); A[4 * i + 1] = A[4 * i + 2] = 0; A[4 * i + 3] = b(p[i], 1); } }
    void density(const int n, const double* A, double* rho) const { for (int i = 0; i < n; ++i) { rho[2 * i] = A[4 * i] * q.rho[0]; rho[2 * i + 1] = A[4 * i + 3] * q.rho[1]; } }
    const double* surfaceDensity() const { return &q.rho[0]; }
    void relperm(const int n, const double* s, const int* c, double* r, double* d) const { q.relperm(n, s, c, r, d); }
    void capPress(const int, const double*, const int*, double*, double*) const {}
    void satRange(const int n, const int* c, double* a, double* z) const { q.satRange(n, c, a, z); }
    double ff(double s, int c, double p) const { double r[2], m[2]; q.k(s, c, r); for (int k = 0; k < 2; ++k) m[k] = r[k] / (q.kr ? visc(p, k) : 1.0); return m[0] / (m[0] + m[1]); }
};
#endif
static UnstructuredGrid* g; static Props P; static V flux;
static double out(int c, int i) { const int f = g->cell_faces[i]; return g->face_cells[2 * f] == c ? flux[f] : -flux[f]; }
static int nb(int c, int i) { const int f = g->cell_faces[i]; return g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; }
static bool acyclic() { const int nc = g->number_of_cells; int n = 0; std::vector<char> done(nc, 0); for (bool more = true; more;) { more = false; for (int c = 0; c < nc; ++c) { if (done[c]) continue; bool ok = true; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1] && ok; ++i) if (nb(c, i) >= 0 && !done[nb(c, i)] && out(c, i) < 0) ok = false; if (ok) { done[c] = 1; ++n; more = true; } } } return n == nc; }
extern "C" void harness()
{
#if PART == 12
    g = create_grid_cart2d(NX, NY, 1.0, 1.0); const int nc = g->number_of_cells, nf = g->number_of_faces; P.nc = nc; P.dim = 2; P.kr = KR; P.mu = KR == 0 ? V(2, 1.0) : rvec("mu", 2, 0.25, 4); P.rho.assign(2, 1.0); P.perm.assign(4 * nc, 1.0); P.por.assign(nc, 0.5); P.lo.assign(nc, 0.0); P.hi.assign(nc, 1.0);
    flux.assign(nf, 0.0); const double dt = LOOP ? 1.0 : sym_real("dt", 0.0625, 4); V pv = LOOP ? V(nc, 1.0) : rvec("pv", nc, 0.25, 4), src(nc, 0.0);
    V s0(nc), wsrc(nc, 0.0);
#if LOOP     // circular flow through all four cells of a 2x2 grid, real root finder, straight-line fractional flow
    g_real = true; const bool cw = sym_choice("clockwise", 2); const int inj = LOOP > 1 ? sym_choice("injector", 4) : 0, prod = sym_choice("producer", 4); if (inj == prod) sym_stop(); const double circ = 0.0625;
    for (int f = 0; f < nf; ++f) { const int* c = g->face_cells + 2 * f; if (c[0] < 0 || c[1] < 0) continue; const int a = c[0], b = c[1]; /* cycle 0 1 3 2 */ const int pos[4] = { 0, 1, 3, 2 }; const bool fwd = (pos[a] + 1) % 4 == pos[b]; double q = circ * (fwd ? 1 : -1) * (cw ? 1 : -1);
        // part of the injected rate that travels forward along the cycle from injector to producer
        int d = 0; const int lowp = fwd ? pos[a] : pos[b]; for (int p = pos[inj]; p != pos[prod]; p = (p + 1) % 4) d += p == lowp; if (d) q += (fwd ? 1 : -1) * (cw ? 1.0 : 0.0); d = 0; for (int p = pos[prod]; p != pos[inj]; p = (p + 1) % 4) d += p == lowp; if (d) q += (fwd ? -1 : 1) * (cw ? 0.0 : 1.0); flux[f] = q; }
    src[inj] = 1; src[prod] = -1; s0 = rvec("s0", nc, 0.25, 0.75); if (LOOP == 1) { const int v = sym_choice("varying", 4); for (int c = 0; c < nc; ++c) if (c != v) s0[c] = 0.5; }
#else
    for (int f = 0, k = 0; f < nf; ++f) { const int* c = g->face_cells + 2 * f; if (c[0] < 0 || c[1] < 0) continue; if (nc == 4 && k++ > 1) { const double C[3] = { 1, -0.5, 0 }; flux[f] = C[sym_choice(nme("v", f).c_str(), 3)]; } else flux[f] = rvar("v", f, -2, 2); }
    if (!acyclic()) sym_stop();
    TGT = rvec("s", nc, 0, 1); visits.assign(nc, 0); need = 0;
    for (int c = 0; c < nc; ++c) { double inw = 0, ot = 0; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (nb(c, i) >= 0) { const double q = out(c, i); src[c] += q; if (q > 0) ot += q; else inw -= q * P.ff(TGT[nb(c, i)], nb(c, i)); } if (src[c] > 0) inw += src[c]; else ot -= src[c]; s0[c] = TGT[c] + dt / pv[c] * (ot * P.ff(TGT[c], c) - inw); sym_assume_le(0.0, s0[c]); sym_assume_le(s0[c], 1.0); }
#endif
    Opm::TwophaseState st; st.init(*g, 2); st.faceflux() = flux; for (int c = 0; c < nc; ++c) { st.saturation()[2 * c] = s0[c]; st.saturation()[2 * c + 1] = 1 - s0[c]; }
    Opm::TransportSolverTwophaseReorder ts(*g, P, 0, 1e-12, 200);
    ts.solve(&pv[0], &src[0], dt, st);
    const V& s = st.saturation(); sym_native_tol(1e-6, 1e-7);
    for (int c = 0; c < nc; ++c) { sym_check_eq(s[2 * c] + s[2 * c + 1], 1.0, "saturations sum to one"); sym_check_le(0.0, s[2 * c], "saturation in range"); sym_check_le(s[2 * c], 1.0, "saturation in range"); }
    double tot = 0, bal = 0;
    for (int c = 0; c < nc; ++c) {
        double inw = 0, ot = 0; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (nb(c, i) >= 0) { const double q = out(c, i); if (q > 0) ot += q; else inw -= q * P.ff(s[2 * nb(c, i)], nb(c, i)); } if (src[c] > 0) { inw += src[c]; bal += src[c]; } else { ot -= src[c]; bal += src[c] * P.ff(s[2 * c], c); }
        const double l = pv[c] * (s[2 * c] - s0[c]), r = dt * (inw - ot * P.ff(s[2 * c], c)); tot += l;
#if LOOP
        sym_check_le(l - r, 1e-7, "cell balance at the end-of-step saturation"); sym_check_le(r - l, 1e-7, "cell balance at the end-of-step saturation");
#else
        sym_check_eq(l, r, "cell balance at the end-of-step saturation");
#endif
    }
#if LOOP
    sym_check_le(tot - dt * bal, 1e-6, "water volume of the grid"); sym_check_le(dt * bal - tot, 1e-6, "water volume of the grid");
#else
    sym_check_eq(tot, dt * bal, "water volume of the grid");
#endif
#elif PART == 14
    g = create_grid_cart2d(NX, NY, 1.0, 1.0); const int nc = g->number_of_cells, nf = g->number_of_faces; P.nc = nc; P.dim = 2; P.kr = KR; P.rho.assign(2, 1.0); P.perm.assign(4 * nc, 1.0); P.por.assign(nc, 0.5); P.lo.assign(nc, 0.0); P.hi.assign(nc, 1.0); BProps B(P);
    flux.assign(nf, 0.0); const double dt = sym_real("dt", 0.0625, 4); V pv0 = rvec("pv0", nc, 0.25, 4), pv = rvec("pv", nc, 0.25, 4), src = rvec("q", nc, -2, 2), pr = rvec("p", nc, 0.25, 4), zw(nc), zo = rvec("zo", nc, 0, 4), guess = rvec("guess", nc, 0, 1);
    for (int f = 0, k = 0; f < nf; ++f) { const int* c = g->face_cells + 2 * f; if (c[0] < 0 || c[1] < 0) continue; if (nc == 4 && k++ > 1) { const double C[3] = { 1, -0.5, 0 }; flux[f] = C[sym_choice(nme("v", f).c_str(), 3)]; } else flux[f] = rvar("v", f, -2, 2); }
    if (nc == 4) { src[1] = 0.5; src[2] = -0.25; pv[1] = 1; pv0[2] = 0.5; }
    if (!acyclic()) sym_stop(); TGT = rvec("s", nc, 0, 1); visits.assign(nc, 0); need = 0;
    auto net = [&](int c, const V& s) { double r = src[c] > 0 ? src[c] : src[c] * B.b(pr[c], 0) * B.ff(s[c], c, pr[c]); for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (nb(c, i) >= 0) { const double q = out(c, i); const int u = q > 0 ? c : nb(c, i); r -= q * B.b(pr[u], 0) * B.ff(s[u], u, pr[u]); } return r; };   // net water inflow in surface volumes
    for (int c = 0; c < nc; ++c) zw[c] = (pv[c] * B.b(pr[c], 0) * TGT[c] - dt * net(c, TGT)) / pv0[c];
    V s(2 * nc), z(2 * nc); for (int c = 0; c < nc; ++c) { s[2 * c] = guess[c]; s[2 * c + 1] = 1 - guess[c]; z[2 * c] = zw[c]; z[2 * c + 1] = zo[c]; }
    Opm::TransportSolverCompressibleTwophaseReorder ts(*g, B, 1e-13, 200); ts.solve(&flux[0], &pr[0], &pv0[0], &pv[0], &src[0], dt, s, z); sym_native_tol(1e-6, 1e-7);
    V sw(nc); for (int c = 0; c < nc; ++c) { sw[c] = s[2 * c]; sym_check_eq(s[2 * c] + s[2 * c + 1], 1.0, "saturations sum to one"); sym_check_le(0.0, sw[c], "saturation in range"); sym_check_le(sw[c], 1.0, "saturation in range"); for (int k = 0; k < 2; ++k) sym_check_eq(z[2 * c + k], B.b(pr[c], k) * s[2 * c + k], "surface volume is fluid matrix times saturation"); }
    double tot = 0, bal = 0; for (int c = 0; c < nc; ++c) { const double l = pv[c] * B.b(pr[c], 0) * sw[c] - pv0[c] * zw[c]; sym_check_eq(l, dt * net(c, sw), "cell balance at the end-of-step saturation"); tot += l; bal += dt * (src[c] > 0 ? src[c] : src[c] * B.b(pr[c], 0) * B.ff(sw[c], c, pr[c])); }
    sym_check_eq(tot, bal, "water surface volume of the grid");
#else
    g = create_grid_cart3d(NX, 1, NZ); const int nc = g->number_of_cells; P.nc = nc; P.dim = 3; P.kr = KR; 
    // VAR 0: every saturation, physical parameters from a list; VAR 1, 2: saturations from a list, every density, time step and pore volume, or every viscosity and permeability
    const double LM[3][2] = { { 1, 1 }, { 0.5, 2 }, { 1, 1 } }, LR[3][2] = { { 2, 1 }, { 1, 3 }, { 1, 4 } }, LP[3][3] = { { 1, 1, 1 }, { 1, 2, 0.5 }, { 0.5, 4, 1 } }, LK[3][3] = { { 0.5, 0.5, 0.5 }, { 1, 0.5, 1 }, { 0.25, 0.25, 1 } }, LD[3] = { 1, 0.5, 0.25 }, LS[3][3] = { { 0.25, 0.5, 0.75 }, { 0.75, 0.25, 0.5 }, { 0.5, 0.5, 0.5 } };
    const int set = sym_choice("set", 3); auto pick = [](const double* a, int n) { return V(a, a + n); };
    P.mu = VAR == 2 && PART == 13 ? rvec("mu", 2, 0.5, 2) : pick(LM[set], 2); P.rho = VAR == 1 ? V(2, 1.0) : pick(LR[set], 2); auto rows = [&](const double* a) { V r(nc); for (int c = 0; c < nc; ++c) r[c] = a[c / NX]; return r; }; P.por.assign(nc, 0.5); P.perm.assign(9 * nc, 0.0); V kz = VAR == 2 && PART == 13 ? rvec("kz", nc, 0.25, 2) : rows(LK[set]); for (int c = 0; c < nc; ++c) { P.perm[9 * c] = P.perm[9 * c + 4] = 3; P.perm[9 * c + 8] = kz[c]; } P.lo.assign(nc, 0.0); P.hi.assign(nc, 1.0);
    const double dt = VAR == 1 ? sym_real("dt", 0.0625, 1) : LD[set], tol = 1e-9, gr = sym_choice("upwards", 2) ? -1.5 : 1.5; const double grav[3] = { 0, 0, gr }; V pv = rows(LP[set]); if (VAR == 1) { pv[0] = sym_real("pv", 0.5, 4); P.rho[set % 2] = sym_real("rho", 1.25, 4); }
    Opm::TwophaseState st; st.init(*g, 2); V s0(nc);
#if PART == 15
    const double LPR[3][3] = { { 1, 1, 1 }, { 1, 2, 3 }, { 2, 1, 0.5 } }; V pr = REST ? V(nc, 0.0) : rows(LPR[set]); if (VAR == 2) pr[set % nc] = sym_real("p", 0.25, 4); BProps B(P); auto BV = [&](int c, int k) { return KR ? B.visc(pr[c], k) : 1.0; };
#endif
#if REST
    const int how = sym_choice("rest", 3); for (int c = 0; c < nc; ++c) { const bool low = gr > 0 ? c / NX == NZ - 1 : c / NX == 0; s0[c] = how == 0 ? rvar("s", c, 0, 1) : how == 1 ? (c % NX ? 1.0 : 0.0) : low ? 1.0 : 0.0; } if (how == 0) P.rho[1] = P.rho[0]; if (how == 2) sym_assume_le(P.rho[1], P.rho[0]);
    TGT = s0; checked = false; visits.assign(nc, 0); need = 0;
#else
    sym_assume_ne(P.rho[0], P.rho[1]); TGT = VAR ? rows(LS[set]) : rvec("s", nc, 0.0625, 0.9375); if (nc == 3 && !VAR) { TGT[set] = 0.5; TGT[(set + 1) % 3] = 0.25; } visits.assign(nc, 0); need = 1;
#if PART == 15
    auto diff = [&](int c) { return B.b(pr[c], 0) * P.rho[0] - B.b(pr[c], 1) * P.rho[1]; };
#endif
    auto residual = [&](int c, const V& x, const V& from) { double r = x[c] - from[c];
        for (int d = -1; d <= 1; d += 2) { const int z = c / NX + d; if (z < 0 || z >= NZ) continue; const int n = c + d * NX; const double T = 1 / (1 / (2 * kz[c]) + 1 / (2 * kz[n])), 
#if PART == 15
                drive = T * gr * d * 0.5 * (diff(c) + diff(n)); const double mc[2] = { BV(c, 0), BV(c, 1) }, mn[2] = { BV(n, 0), BV(n, 1) };
#else
                drive = T * gr * d * (P.rho[0] - P.rho[1]), *mc = &P.mu[0], *mn = mc;   // water driven from c to n when positive
#endif

            double a[2], b[2]; P.k(x[c], c, a); P.k(x[n], n, b); const double w = drive > 0 ? a[0] / mc[0] : b[0] / mn[0], o = drive > 0 ? b[1] / mn[1] : a[1] / mc[1]; r += dt / pv[c] * drive * w * o / (w + o); }
        return r; };
    for (int c = 0; c < nc; ++c) { s0[c] = residual(c, TGT, V(nc, 0.0)); sym_assume_le(0.0, s0[c]); sym_assume_le(s0[c], 1.0); }
    // away from rest: the root finder is needed whatever the neighbours' current values are
    for (int c = 0; c < nc; ++c) for (int m = 0; m < 4; ++m) { V x = s0; bool dup = false; for (int d = -1, b = 1; d <= 1; d += 2, b *= 2) { const int z = c / NX + d; const bool in = z >= 0 && z < NZ; if (m & b) { if (in) x[c + d * NX] = TGT[c + d * NX]; else dup = true; } } if (!dup) { const double r = residual(c, x, s0); if (!(r > 2 * tol || r < -2 * tol)) sym_stop(); } }
#endif
    for (int c = 0; c < nc; ++c) { st.saturation()[2 * c] = s0[c]; st.saturation()[2 * c + 1] = 1 - s0[c]; }
#if PART == 15
    V s = st.saturation(), z(2 * nc, 3.0); { // a step without flow makes pressure-dependent properties and pore volumes current
        g_real = true; Opm::TransportSolverCompressibleTwophaseReorder ts(*g, B, sym_is_symbolic() ? tol : 1e-12, 500); ts.initGravity(grav); V q(g->number_of_faces, 0.0), src(nc, 0.0), dummy = s, zz(2 * nc); for (int i = 0; i < 2 * nc; ++i) zz[i] = B.b(pr[i / 2], i % 2) * s[i]; ts.solve(&q[0], &pr[0], &pv[0], &pv[0], &src[0], dt, dummy, zz);
        g_real = false; std::vector<std::vector<int> > cols(NX); for (int c = 0; c < nc; ++c) cols[c % NX].push_back(c); ts.solveGravity(cols, dt, s, z); sym_native_tol(1e-6, 1e-7); }
    for (int c = 0; c < nc; ++c) for (int k = 0; k < 2; ++k) sym_check_eq(z[2 * c + k], B.b(pr[c], k) * s[2 * c + k], "surface volume is fluid matrix times saturation");
#else
    Opm::TransportSolverTwophaseReorder ts(*g, P, grav, sym_is_symbolic() ? tol : 1e-12, 500);
    ts.solveGravity(&pv[0], dt, st); const V& s = st.saturation(); sym_native_tol(1e-6, 1e-7);
#endif
    for (int c = 0; c < nc; ++c) { sym_check_eq(s[2 * c], TGT[c], REST ? "state at rest is kept" : "saturation solves the segregation balance"); sym_check_eq(s[2 * c] + s[2 * c + 1], 1.0, "saturations sum to one"); sym_check_le(0.0, s[2 * c], "saturation in range"); sym_check_le(s[2 * c], 1.0, "saturation in range"); }
    for (int i = 0; i < NX; ++i) { double a = 0; for (int k = 0; k < NZ; ++k) a += pv[i + k * NX] * (s[2 * (i + k * NX)] - s0[i + k * NX]); sym_check_eq(a, 0.0, "water volume of the column is unchanged"); }
#endif
    destroy_grid(g);
}
