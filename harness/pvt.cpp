// C23 / C24: single-phase PVT models
#include "symutil.hpp"
#include <opm/core/props/pvt/SinglePvtConstCompr.hpp>
#include <opm/core/props/pvt/SinglePvtDead.hpp>
#include <opm/core/props/pvt/SinglePvtDeadSpline.hpp>
#include <opm/core/props/pvt/SinglePvtLiveOil.hpp>
#include <opm/core/props/pvt/SinglePvtLiveGas.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#ifndef N
#define N 2
#endif
#ifndef MODE
#define MODE 0
#endif
typedef std::vector<double> V; typedef std::vector<V> VV; typedef std::vector<VV> VVV;
static V incr(const char* nm, int n, double lo, double hi) { V x = rvec(nm, n, lo, hi); for (int i = 0; i + 1 < n; ++i) sym_assume_le(x[i] + 0.25, x[i + 1]); return x; }
static V decr(const char* nm, int n, double lo, double hi) { V x = rvec(nm, n, lo, hi); for (int i = 0; i + 1 < n; ++i) sym_assume_lt(x[i + 1], x[i]); return x; }
static void away(double p, double node) { if (p < node) sym_assume_le(p + 0.015625, node); else sym_assume_le(node + 0.015625, p); }
template <class M> static double getB(const M& m, double p, const double* z) { double o = -1; m.B(1, &p, z, &o); return o; }
template <class M> static double getMu(const M& m, double p, const double* z) { double o = -1; m.mu(1, &p, z, &o); return o; }
template <class M> static double getR(const M& m, double p, const double* z) { double o = -1; m.R(1, &p, z, &o); return o; }
// every reported derivative is the derivative of the reported value; values agree between interfaces; two cells at once
template <class M> static void derivs(const M& m, double p, const double* z, int np)
{
    double pp[2] = { p, p + 1.0 }; V zz(2 * np); for (int k = 0; k < np; ++k) { zz[k] = z[k]; zz[np + k] = z[k]; }
    double b[2] = { -1, -1 }, db[2] = { -1, -1 }, r[2] = { -1, -1 }, dr[2] = { -1, -1 };
    m.dBdp(1, pp, &zz[0], b, db); m.dRdp(1, pp, &zz[0], r, dr);
    sym_check_eq(b[0], getB(m, p, z), "factor reported with its derivative"); sym_check_eq(r[0], getR(m, p, z), "ratio reported with its derivative");
    sym_native_tol(1e-4, 1e-5);
    sym_check_eq(db[0], deriv_of([&](const V& v) { return getB(m, v[0], z); }, V(1, p), 0, 1e-5), "factor derivative");
    sym_check_eq(dr[0], deriv_of([&](const V& v) { return getR(m, v[0], z); }, V(1, p), 0, 1e-5), "ratio derivative");
    sym_native_tol(1e-9, 1e-9);
}
extern "C" void harness()
{
    const double p = sym_real("p", 0.25, 16); const double nz[3] = { 1, 1, 1 };
#if MODE == 0          // constant compressibility
    V t = rvec("t", 5, 0.0625, 4); if (sym_choice("incompressible", 2)) t[2] = 0.0; if (sym_choice("const visc", 2)) t[4] = 0.0;
    Opm::SinglePvtConstCompr m(VV(1, t)); int pos[3] = { 0, 1, 2 }; m.setPhaseConfiguration(3, pos);
    const double x = t[2] * (p - t[0]), y = -t[4] * (p - t[0]);
    sym_check_eq(getB(m, p, nz), t[1] / (1 + x + x * x / 2), "formation volume factor"); sym_check_eq(getMu(m, p, nz), t[3] / (1 + y + y * y / 2), "viscosity"); sym_check_eq(getR(m, p, nz), 0.0, "no dissolution");
    derivs(m, p, nz, 3);
    const double v = sym_real("v", 0.0625, 4); Opm::SinglePvtConstCompr c(v); sym_check_eq(getB(c, p, nz), 1.0, "incompressible phase"); sym_check_eq(getMu(c, p, nz), v, "constant viscosity"); derivs(c, p, nz, 3);
    // several cells in one call
    double pp[3] = { p, p + 1, p + 2 }, o[3], d[3], q[3]; const double zz[9] = { 1, 1, 1, 1, 1, 1, 1, 1, 1 };
    m.B(3, pp, zz, o); m.dBdp(3, pp, zz, q, d); for (int i = 0; i < 3; ++i) { sym_check_eq(o[i], getB(m, pp[i], nz), "one cell at a time"); sym_check_eq(q[i], o[i], "one cell at a time"); }
    m.mu(3, pp, zz, o); for (int i = 0; i < 3; ++i) sym_check_eq(o[i], getMu(m, pp[i], nz), "one cell at a time");
#elif MODE == 1        // dead, tabulated
    V pt = incr("pt", N, 0.25, 16), B = rvec("B", N, 0.25, 4), mu = rvec("mu", N, 0.25, 4);
    VVV t(1, VV(3)); t[0][0] = pt; t[0][1] = B; t[0][2] = mu; Opm::SinglePvtDead m(t);
    int s = 0; while (s + 2 < N && p >= pt[s + 1]) ++s;
    const double w = (p - pt[s]) / (pt[s + 1] - pt[s]), bi = 1 / B[s] + w * (1 / B[s + 1] - 1 / B[s]); sym_assume_lt(0.03125, bi);
    for (int i = 0; i < N; ++i) away(p, pt[i]);
    for (int i = 0; i < N; ++i) { sym_check_eq(getB(m, pt[i], nz), B[i], "factor at a table node"); sym_check_eq(getMu(m, pt[i], nz), mu[i], "viscosity at a table node"); }
    sym_check_eq(getB(m, p, nz), 1 / bi, "reciprocal of the interpolated reciprocal"); sym_check_eq(getMu(m, p, nz), mu[s] + w * (mu[s + 1] - mu[s]), "interpolated viscosity"); sym_check_eq(getR(m, p, nz), 0.0, "no dissolution");
    derivs(m, p, nz, 3);
#elif MODE == 2        // dead, resampled
    const int S = 3; V pt(N), B = rvec("B", N, 0.25, 4), mu = rvec("mu", N, 0.25, 4); for (int i = 0; i < N; ++i) pt[i] = 1.0 + 4 * i + i * i;
    VVV t(1, VV(3)); t[0][0] = pt; t[0][1] = B; t[0][2] = mu; Opm::SinglePvtDeadSpline m(t, S);
    V bi(N); for (int i = 0; i < N; ++i) bi[i] = 1 / B[i];
    Opm::MonotCubicInterpolator fb(pt, bi), fm(pt, mu); V sb(S), sm(S), sp(S);
    for (int i = 0; i < S; ++i) { sp[i] = pt[0] + (pt[N - 1] - pt[0]) * i / (S - 1); sb[i] = fb(sp[i]); sm[i] = fm(sp[i]); sym_assume_lt(0.0625, sb[i]); away(p, sp[i]); }
    double vb, vm; if (p < sp[0]) { vb = sb[0]; vm = sm[0]; } else if (p > sp[S - 1]) { vb = sb[S - 1]; vm = sm[S - 1]; }
    else { int s = 0; while (s + 2 < S && p >= sp[s + 1]) ++s; const double w = (p - sp[s]) / (sp[s + 1] - sp[s]); vb = sb[s] + w * (sb[s + 1] - sb[s]); vm = sm[s] + w * (sm[s + 1] - sm[s]); }
    sym_check_eq(getB(m, p, nz), 1 / vb, "reciprocal of the resampled reciprocal"); sym_check_eq(getMu(m, p, nz), vm, "resampled viscosity"); sym_check_eq(getR(m, p, nz), 0.0, "no dissolution");
    derivs(m, p, nz, 3);
#elif MODE == 3        // oil with dissolved gas: N saturated nodes, two undersaturated points each
    V pt = incr("pt", N, 0.25, 16), rs = incr("rs", N, 0.25, 4), B = rvec("B", 2 * N, 0.25, 4), mu = rvec("mu", 2 * N, 0.25, 4), pu = rvec("pu", N, 0.25, 32);
    const bool missing = sym_choice("first saturated node without undersaturated data", 2);
    VVV t(1, VV(N)); for (int i = 0; i < N; ++i) { sym_assume_le(pt[i] + 1.5, pu[i]); V r; r.push_back(rs[i]); r.push_back(pt[i]); r.push_back(B[2 * i]); r.push_back(mu[2 * i]); if (!(missing && i == 0)) { r.push_back(pu[i]); r.push_back(B[2 * i + 1]); r.push_back(mu[2 * i + 1]); } t[0][i] = r; }
    Opm::SinglePvtLiveOil m(t); int pos3[3] = { 0, 1, 2 }, pos2[3] = { -1, 0, 1 }; const bool three = sym_choice("three phases", 2); const int np = three ? 3 : 2, L = three ? 1 : 0, G = L + 1; m.setPhaseConfiguration(np, three ? pos3 : pos2);
    V z(np, 0.5);
    for (int i = 0; i < N; ++i) {          // tables are reproduced at their nodes
        z[L] = 1.0; z[G] = 8.0; sym_check_eq(getB(m, pt[i], &z[0]), B[2 * i], "saturated factor at a node"); sym_check_eq(getMu(m, pt[i], &z[0]), mu[2 * i], "saturated viscosity at a node"); sym_check_eq(getR(m, pt[i], &z[0]), rs[i], "saturated ratio at a node");
        z[G] = rs[i]; if (missing && i == 0) continue;
        sym_check_eq(getB(m, pu[i], &z[0]), B[2 * i + 1], "undersaturated factor at a node"); sym_check_eq(getMu(m, pu[i], &z[0]), mu[2 * i + 1], "undersaturated viscosity at a node"); sym_check_eq(getR(m, pu[i], &z[0]), rs[i], "undersaturated ratio");
        sym_check_eq(getB(m, pt[i], &z[0]), B[2 * i], "branches meet at a node"); sym_check_eq(getMu(m, pt[i], &z[0]), mu[2 * i], "branches meet at a node");
    }
    z[L] = sym_real("zl", 0.25, 4); z[G] = sym_choice("no gas", 2) ? 0.0 : sym_real("zg", 0.015625, 8);
    int s = 0; while (s + 2 < N && p >= pt[s + 1]) ++s;
    const double sat = rs[s] + (p - pt[s]) / (pt[s + 1] - pt[s]) * (rs[s + 1] - rs[s]), av = z[G] / z[L];
    sym_assume_le(0.0, sat); for (int i = 0; i < N; ++i) { away(p, pt[i]); away(p, pu[i]); }
    if (missing) away(p, pt[0] + pu[1] - pt[1]);
    away(sat, av); sym_check_eq(getR(m, p, &z[0]), sat < av ? sat : av, "smaller of the saturated and the available ratio");
    const double b = getB(m, p, &z[0]); sym_assume_lt(0.0, b); sym_assume_lt(b, 32.0);
    derivs(m, p, &z[0], np);
#elif MODE == 4        // gas with vaporised oil: N pressure nodes, two ratios each, decreasing from saturation
    V pt = incr("pt", N, 0.25, 16), rv = incr("rv", N, 0.5, 4), B = rvec("B", 2 * N, 0.25, 4), mu = rvec("mu", 2 * N, 0.25, 4), ru = rvec("ru", N, 0, 4);
    VVV t(1, VV(N)); for (int i = 0; i < N; ++i) { sym_assume_le(ru[i] + 0.0625, rv[i]); V r; r.push_back(pt[i]); r.push_back(rv[i]); r.push_back(B[2 * i]); r.push_back(mu[2 * i]); r.push_back(ru[i]); r.push_back(B[2 * i + 1]); r.push_back(mu[2 * i + 1]); t[0][i] = r; }
    Opm::SinglePvtLiveGas m(t); int pos3[3] = { 0, 1, 2 }, pos2[3] = { -1, 0, 1 }; const bool three = sym_choice("three phases", 2); const int np = three ? 3 : 2, L = three ? 1 : 0, G = L + 1; m.setPhaseConfiguration(np, three ? pos3 : pos2);
    V z(np, 0.5);
    for (int i = 0; i < N; ++i) {
        z[G] = 1.0; z[L] = 8.0; sym_check_eq(getB(m, pt[i], &z[0]), B[2 * i], "saturated factor at a node"); sym_check_eq(getMu(m, pt[i], &z[0]), mu[2 * i], "saturated viscosity at a node"); sym_check_eq(getR(m, pt[i], &z[0]), rv[i], "saturated ratio at a node");
        z[L] = ru[i]; sym_check_eq(getB(m, pt[i], &z[0]), B[2 * i + 1], "undersaturated factor at a node"); sym_check_eq(getMu(m, pt[i], &z[0]), mu[2 * i + 1], "undersaturated viscosity at a node"); sym_check_eq(getR(m, pt[i], &z[0]), ru[i], "undersaturated ratio");
        z[L] = rv[i]; sym_check_eq(getB(m, pt[i], &z[0]), B[2 * i], "branches meet at a node"); sym_check_eq(getMu(m, pt[i], &z[0]), mu[2 * i], "branches meet at a node");
    }
    z[G] = sym_real("zg", 0.25, 4); z[L] = sym_choice("no oil", 2) ? 0.0 : sym_real("zl", 0.015625, 8);
    int s = 0; while (s + 2 < N && p >= pt[s + 1]) ++s;
    const double sat = rv[s] + (p - pt[s]) / (pt[s + 1] - pt[s]) * (rv[s + 1] - rv[s]), av = z[L] / z[G];
    sym_assume_le(0.0, sat); for (int i = 0; i < N; ++i) away(p, pt[i]);
    away(sat, av); sym_check_eq(getR(m, p, &z[0]), sat < av ? sat : av, "smaller of the saturated and the available ratio");
    derivs(m, p, &z[0], np);
#endif
}
