// Small helpers shared by C++ harnesses.
#ifndef SYMUTIL_HPP
#define SYMUTIL_HPP
#include "sym.h"
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <cstdio>
static const double SINF = std::numeric_limits<double>::infinity();
inline std::string nme(const char* s, int i) { char b[64]; std::snprintf(b, sizeof b, "%s%d", s, i); return b; }
inline std::string nme(const char* s, int i, int j) { char b[64]; std::snprintf(b, sizeof b, "%s%d_%d", s, i, j); return b; }
inline double rvar(const char* s, int i, double lo = -SINF, double hi = SINF) { return sym_real(nme(s, i).c_str(), lo, hi); }
inline double rvar2(const char* s, int i, int j, double lo = -SINF, double hi = SINF) { return sym_real(nme(s, i, j).c_str(), lo, hi); }
inline std::vector<double> rvec(const char* s, int n, double lo = -SINF, double hi = SINF) { std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = rvar(s, i, lo, hi); return v; }
// derivative of f(x) with respect to x[i]: formal in the symbolic build, central difference natively
template <class F> double deriv_of(F f, std::vector<double> x, int i, double h = 1e-5)
{
    if (sym_is_symbolic()) return sym_diff(f(x), x[i]);
    std::vector<double> a(x), b(x); a[i] -= h; b[i] += h; return (f(b) - f(a)) / (2 * h);
}
#endif
