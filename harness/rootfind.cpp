// C15: RegulaFalsi (both forms) and bracketZero over functions known only through their values.
#include "symutil.hpp"
#include <opm/core/utility/RootFinders.hpp>
#include <stdexcept>
#include <cstring>
#ifndef FORM
#define FORM 0          // 0: [a,b]; 1: initial guess in [a,b]; 2: bracketZero
#endif
#ifndef WIDE
#define WIDE 0
#endif
#ifndef MAXIT
#define MAXIT 2
#endif
struct F
{
    mutable std::vector<double> xs, fs; double a, b; int limit;
    F() : a(-SINF), b(SINF), limit(100) {}
    double operator()(double x) const
    {
        for (size_t i = 0; i < xs.size(); ++i) if (std::memcmp(&xs[i], &x, 8) == 0) return fs[i];
        if ((int)xs.size() >= limit) sym_stop();
        if (std::isfinite(a)) { sym_check_le(a, x, "never evaluates below the bracket"); sym_check_le(x, b, "never evaluates above the bracket"); }
        const double v = rvar("f", xs.size(), -8, 8); xs.push_back(x); fs.push_back(v); return v;
    }
};
template <class P> static void run()
{
    F f; const double a = -1.0, b = WIDE ? 3.0 : 1.0, tol = WIDE ? 1e-6 : 0.25;
    f.a = a; f.b = b; int used = -1; double r = 0; bool thrown = false;
    const bool thr = std::is_same<P, Opm::ThrowOnError>::value;
    try {
#if FORM == 0
        r = Opm::RegulaFalsi<P>::solve(f, a, b, MAXIT, tol, used);
#else
        const double x0 = sym_real("guess", -4, 4); sym_assume_le(a, x0); sym_assume_le(x0, b);
        r = Opm::RegulaFalsi<P>::solve(f, x0, a, b, MAXIT, tol, used);
#endif
    } catch (std::exception&) { thrown = true; }
    const size_t n = f.xs.size();
    sym_check((int)n <= MAXIT + 4, "bounded number of function evaluations");
    const double tf = tol + 1e-9 * 9;            // |f| <= 8
    // sign change among the evaluated points: all values known to be non-zero when the code went on
    bool chg = false; for (size_t i = 1; i < n && !chg; ++i) for (size_t j = 0; j < i && !chg; ++j) if (f.fs[i] * f.fs[j] <= 0) chg = true;
    if (thrown) {
        sym_check(thr, "only the throwing policy throws");
        sym_check(!(chg && used <= MAXIT && used >= 0), "throws only without a bracket or at the iteration limit"); 
        return;
    }
    auto isRoot = [&]() { for (size_t i = 0; i < n; ++i) if (std::memcmp(&f.xs[i], &r, 8) == 0) return std::fabs(f.fs[i]) <= tf; return false; };
    if (!chg) {
        if (!isRoot()) { sym_check(!thr, "no bracket: the throwing policy throws"); sym_check(r == a || r == b, "no bracket: returns an end point"); }
        return;
    }
    sym_check_le(a, r, "root not below the bracket"); sym_check_le(r, b, "root not above the bracket");
    bool ok = false;
    if (used > MAXIT) { sym_check(!thr, "iteration limit: the throwing policy throws"); return; }
    ok = isRoot();
    for (size_t i = 0; i < n && !ok; ++i) for (size_t j = 0; j < n && !ok; ++j)
        if (f.xs[i] <= r && r <= f.xs[j] && f.xs[j] - f.xs[i] <= tol + 1e-9 * 4 && f.fs[i] * f.fs[j] <= 0) ok = true;
    sym_check(ok, "returned point is a root to tolerance");
}
extern "C" void harness()
{
#if FORM == 2
    F f; const double x0 = sym_real("x0", -4, 4), dx = sym_real("dx", 0, 4); sym_assume_lt(0.0, dx); f.limit = 6;
    double a = 0, b = 0; Opm::bracketZero(f, x0, dx, a, b);
    sym_check_le(a, b, "bracket is ordered");
    // both ends were evaluated, with values of opposite sign (or a zero)
    double fa = f(a), fb = f(b);
    sym_check((int)f.xs.size() <= 6, "ends were evaluated");
    sym_check_le(fa * fb, 0.0, "sign change over the bracket");
#else
    if (sym_choice("policy", 2)) run<Opm::ThrowOnError>(); else run<Opm::ContinueOnError>();
#endif
}
