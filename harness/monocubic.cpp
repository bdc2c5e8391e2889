// C20: MonotCubicInterpolator
#include "symutil.hpp"
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#ifndef N
#define N 3
#endif
#ifndef MODE
#define MODE 0
#endif
typedef std::vector<double> V;
typedef Opm::MonotCubicInterpolator M;
static void flags(M& m, const V& y)
{
    const int n = y.size(); bool inc = true, dec = true, sinc = true, sdec = true;
    for (int i = 0; i + 1 < n; ++i) { if (y[i] > y[i + 1]) { inc = sinc = false; } else if (y[i] < y[i + 1]) { dec = sdec = false; } else sinc = sdec = false; }
    sym_check(m.isMonotone() == (inc || dec), "isMonotone"); sym_check(m.isStrictlyMonotone() == (sinc || sdec), "isStrictlyMonotone");
    sym_check(m.isStrictlyIncreasing() == sinc, "isStrictlyIncreasing"); sym_check(m.isStrictlyDecreasing() == sdec, "isStrictlyDecreasing");
    if (!(inc && dec)) { sym_check(m.isMonotoneIncreasing() == inc, "isMonotoneIncreasing"); sym_check(m.isMonotoneDecreasing() == dec, "isMonotoneDecreasing"); }
}
static void extrema(M& m, const V& y)
{
    const std::pair<double, double> hi = m.getMaximumF(), lo = m.getMinimumF();
    for (size_t i = 0; i < y.size(); ++i) { sym_check_le(y[i], hi.second, "maximum is not below any value"); sym_check_le(lo.second, y[i], "minimum is not above any value"); }
    sym_check_eq(m(hi.first), hi.second, "maximum is attained where reported"); sym_check_eq(m(lo.first), lo.second, "minimum is attained where reported");
}
extern "C" void harness()
{
    V x(N), y = rvec("y", N, -8, 8);
    static const double fx[6] = { 0, 1, 1.5, 4, 4.25, 6 };
#if MODE == 0 && N < 3
    x = rvec("x", N, -8, 8); for (int i = 0; i + 1 < N; ++i) sym_assume_lt(x[i], x[i + 1]);
#else
    for (int i = 0; i < N; ++i) x[i] = fx[i];
#endif
#if MODE == 0
    // nodes, constant extrapolation, insertion order, replacement
    M m(x, y), a; const int first = sym_choice("first", 2) ? N - 1 : 0;
    for (int k = 0; k < N; ++k) { int i = (first + k) % N; if (k == 0) a.addPair(x[i], y[i] + 1.0); a.addPair(x[i], y[i]); }
    const double q = sym_real("q", -9, 9);
    for (int i = 0; i < N; ++i) { sym_check_eq(m(x[i]), y[i], "passes through the data"); sym_check_eq(a(x[i]), y[i], "passes through added pairs"); }
    if (q < x[0]) sym_check_eq(m(q), y[0], "constant below the data"); else if (q > x[N - 1]) sym_check_eq(m.evaluate(q), y[N - 1], "constant above the data");
    else sym_check_eq(m(q), a(q), "independent of the order of insertion");
    sym_check_eq(m.getMinimumX().first, x[0], "minimum x"); sym_check_eq(m.getMaximumX().second, y[N - 1], "value at maximum x");
    sym_check(m.getSize() == N && a.getSize() == N, "size");
    V xv = m.get_xVector(), fv = m.get_fVector(); for (int i = 0; i < N; ++i) { sym_check_eq(xv[i], x[i], "x vector"); sym_check_eq(fv[i], y[i], "f vector"); }
#elif MODE == 1
    // monotone data: bounded by neighbours, derivative of constant sign
    const bool down = sym_choice("down", 2); if (N == 4) { y[0] = 0.0; y[2] = 1.0; } for (int i = 0; i + 1 < N; ++i) sym_assume_le(y[i], y[i + 1]);
    V z(y); if (down) for (int i = 0; i < N; ++i) z[i] = -y[i];
    M m(x, z); const int s = sym_choice("segment", N - 1); const double q = sym_real("q", x[s], x[s + 1]); sym_assume_lt(x[s], q); sym_assume_lt(q, x[s + 1]);
    const double d = deriv_of([&](const V& v) { return m(v[0]); }, V(1, q), 0);
    if (down) sym_check_le(d, 0.0, "decreasing between points"); else sym_check_le(0.0, d, "increasing between points");
#elif MODE == 2
    M m(x, y); flags(m, y); extrema(m, y);
    if (sym_choice("scale", 2)) { static const double fs[4] = { -2, -0.5, 0, 3 }; const double f = N > 3 ? fs[sym_choice("fk", 4)] : sym_real("f", -4, 4); m.scaleData(f); V z(y); for (int i = 0; i < N; ++i) z[i] *= f; for (int i = 0; i < N; ++i) sym_check_eq(m(x[i]), z[i], "scaled value"); flags(m, z); extrema(m, z); }
    else {
        const std::pair<double, double> g = m.getMissingX(); bool ok = false;
        for (int i = 0; i + 1 < N; ++i) { const double j = std::fabs(y[i + 1] - y[i]); sym_check_le(j, g.second, "missing range is the largest jump"); if (g.first == 0.5 * (x[i] + x[i + 1])) { ok = true; sym_check_eq(j, g.second, "missing point is the middle of the largest jump"); } }
        sym_check(ok, "missing point is a midpoint");
    }
#elif MODE == 3
    // chopFlatEndpoints / shrinkFlatAreas: values equal exactly or well separated
    for (int i = 0; i + 1 < N; ++i) { const int c = sym_choice(nme("flat", i).c_str(), 3); if (c == 0) y[i + 1] = y[i]; else if (c == 1) sym_assume_le(y[i] + 0.125, y[i + 1]); else sym_assume_le(y[i + 1] + 0.125, y[i]); }
    M m(x, y);
    if (sym_choice("shrink", 2)) {
        bool up = true, dn = true; for (int i = 0; i + 1 < N; ++i) { if (y[i] < y[i + 1]) dn = false; if (y[i] > y[i + 1]) up = false; }
        V ex, ey; for (int i = 0; i < N; ++i) if (i == 0 || y[i] != y[i - 1] || !(up || dn)) { ex.push_back(x[i]); ey.push_back(y[i]); }
        if (N > 3) return; m.shrinkFlatAreas(); V xv = m.get_xVector(), fv = m.get_fVector();
        sym_check(xv.size() == ex.size(), "shrinking keeps one point per flat area of monotone data");
        for (size_t i = 0; i < ex.size() && i < xv.size(); ++i) { sym_check_eq(xv[i], ex[i], "kept x"); sym_check_eq(fv[i], ey[i], "kept f"); sym_check_eq(m(ex[i]), ey[i], "value at kept point"); }
        if (ex.size() > 1) flags(m, ey);
    } else {
        int l = 0, r = N - 1; while (l < N - 1 && y[l] == y[l + 1]) ++l; while (r - 1 > l && y[r] == y[r - 1]) --r;
        if (N < 3) { l = 0; r = N - 1; }
        m.chopFlatEndpoints(); V xv = m.get_xVector(), fv = m.get_fVector();
        sym_check((int)xv.size() == r - l + 1, "chopping keeps the part between the flat ends");
        for (int i = l; i <= r && i - l < (int)xv.size(); ++i) { sym_check_eq(xv[i - l], x[i], "kept x"); sym_check_eq(fv[i - l], y[i], "kept f"); sym_check_eq(m(x[i]), y[i], "value at kept point"); }
        if (r > l) flags(m, V(y.begin() + l, y.begin() + r + 1));
    }
#endif
}
