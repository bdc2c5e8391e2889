// C19: NonuniformTableLinear, UniformTableLinear, buildUniformMonotoneTable
#include "symutil.hpp"
#include <opm/core/utility/NonuniformTableLinear.hpp>
#include <opm/core/utility/UniformTableLinear.hpp>
#include <opm/core/utility/buildUniformMonotoneTable.hpp>
#ifndef N
#define N 4
#endif
#ifndef UNI
#define UNI 0
#endif
typedef std::vector<double> V;
static V nodes(const char* nm, int n) { V x = rvec(nm, n, -8, 8); for (int i = 0; i + 1 < n; ++i) sym_assume_lt(x[i], x[i + 1]); return x; }
extern "C" void harness()
{
    const double q = sym_real("q", -9, 9);
#if UNI == 0
    V x = nodes("x", N), y = rvec("y", N, -8, 8);
    Opm::NonuniformTableLinear<double> t(x, y);
    sym_check_eq(t.domain().first, x[0], "domain begin"); sym_check_eq(t.domain().second, x[N - 1], "domain end");
    for (int i = 0; i < N; ++i) sym_check_eq(t(x[i]), y[i], "value at a node");
    int s = 0; while (s + 2 < N && q >= x[s + 1]) ++s;
    const double slope = (y[s + 1] - y[s]) / (x[s + 1] - x[s]);
    sym_check_eq(t(q), y[s] + slope * (q - x[s]), "value on and beyond the segments");
    bool node = false; for (int i = 0; i < N; ++i) if (q == x[i]) node = true;
    if (!node) sym_check_eq(t.derivative(q), slope, "derivative is the slope of the segment");
#elif UNI == 1
    // inverse, before and after rescaling of the domain; increasing and decreasing data
    V x = nodes("x", N), y = nodes("y", N); if (sym_choice("decreasing", 2)) { for (int i = 0; i < N; ++i) y[i] = -y[i]; }
    Opm::NonuniformTableLinear<double> t(x, y);
    sym_check_eq(t(t.inverse(q)), q, "table value at the inverse");
    for (int i = 0; i < N; ++i) sym_check_eq(t.inverse(y[i]), x[i], "inverse at a node");
    if (sym_choice("copy", 2)) { Opm::NonuniformTableLinear<double> t2(x, y); sym_check(t == t2, "equal data compare equal"); }
    const double c = sym_real("c", -8, 8), d = sym_real("d", -8, 8); sym_assume_lt(c, d);
    t.rescaleDomain(std::make_pair(c, d));
    sym_check_eq(t.domain().first, c, "rescaled domain begin"); sym_check_eq(t.domain().second, d, "rescaled domain end");
    for (int i = 0; i < N; ++i) {
        const double xi = (x[i] - x[0]) * (d - c) / (x[N - 1] - x[0]) + c;
        sym_check_eq(t(xi), y[i], "value at a rescaled node"); sym_check_eq(t.inverse(y[i]), xi, "inverse at a rescaled node");
    }
#elif UNI == 2
    V y = rvec("y", N, -8, 8); const double a = sym_real("a", -8, 8), b = sym_real("b", -8, 8); sym_assume_lt(a, b);
    Opm::UniformTableLinear<double> t(a, b, y), t2(a, b, &y[0], N);
    if (sym_choice("rescaled", 2)) { Opm::UniformTableLinear<double> u(0.0, 1.0, y); u.rescaleDomain(std::make_pair(a, b)); t = u; }
    sym_check_eq(t.domain().first, a, "domain begin"); sym_check_eq(t.domain().second, b, "domain end");
    const double h = (b - a) / (N - 1);
    for (int i = 0; i < N; ++i) sym_check_eq(t(a + i * h), y[i], "value at a node");
    double v, g;
    if (q <= a) { v = y[0]; g = 0; } else if (q >= b) { v = y[N - 1]; g = 0; }
    else { int s = 0; while (s + 2 < N && q >= a + (s + 1) * h) ++s; g = (y[s + 1] - y[s]) / h; v = y[s] + g * (q - (a + s * h)); }
    sym_check_eq(t(q), v, "value (constant outside the domain)"); sym_check_eq(t2(q), v, "value (array constructor)");
    bool node = false; for (int i = 0; i < N; ++i) if (q == a + i * h) node = true;
    if (!node) sym_check_eq(t.derivative(q), g, "derivative is the slope (zero outside the domain)");
#else
    // resampling: the uniform table agrees with the monotone cubic at every sample point
    V x = nodes("x", N), y = rvec("y", N, -8, 8); const int S = 3;
    const bool dup = sym_choice("flat", 2); if (dup) for (int i = 1; i < N; ++i) y[i] = y[0];
    Opm::UniformTableLinear<double> t; Opm::buildUniformMonotoneTable(x, y, S, t);
    Opm::MonotCubicInterpolator f(x, y);
    sym_check_eq(t.domain().first, x[0], "resampled domain begin"); sym_check_eq(t.domain().second, x[N - 1], "resampled domain end");
    for (int i = 0; i < S; ++i) { const double xs = x[0] + (x[N - 1] - x[0]) * i / (S - 1); sym_check_eq(t(xs), f(xs), "resampled table agrees at the sample points"); }
#endif
}
