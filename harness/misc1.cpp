// C40 timer, C48 units and averages, C35 sparse table and vector
#include "symutil.hpp"
typedef std::vector<double> V;
#if PART == 40
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
static void state(const Opm::SimulatorTimer& t, const V& dt, int k)
{
    double now = 0, tot = 0; const int n = dt.size(); for (int i = 0; i < n; ++i) { if (i < k) now += dt[i]; tot += dt[i]; }
    sym_check(t.numSteps() == n, "number of steps"); sym_check(t.currentStepNum() == k, "step number"); sym_check(t.done() == (k == n), "done exactly after the last step");
    sym_check_eq(t.currentTime(), now, "current time is the sum of the completed steps"); sym_check_eq(t.totalTime(), tot, "total time is the sum of all steps");
    if (k < n) sym_check_eq(t.currentStepLength(), dt[k], "step length is the configured one");
}
extern "C" void harness()
{
    Opm::SimulatorTimer t; V dt; const double day = 86400;
    if (sym_choice("deck", 2)) { const int n = 1 + sym_choice("n", MAXN); dt = rvec("dt", n, 0, 100); Opm::EclipseGridParser deck; Opm::TSTEP* ts = new Opm::TSTEP; ts->tstep_ = dt; deck.setSpecialField("TSTEP", Opm::EclipseGridParser::SpecialFieldPtr(ts)); t.init(deck); }
    else { Opm::parameter::ParameterGroup p; p.disableOutput(); switch (sym_choice("param", 4)) { case 0: dt = V(1, day); break; case 1: p.insertParameter("num_psteps", "3"); dt = V(3, day); break; case 2: p.insertParameter("num_psteps", "2"); p.insertParameter("stepsize_days", "0.5"); dt = V(2, 0.5 * day); break; default: p.insertParameter("stepsize_days", "10"); dt = V(1, 10 * day); } t.init(p); }
    int k = 0; const int n = dt.size(); state(t, dt, k);
    for (int op = 0; op < 3; ++op) {
        const int what = sym_choice(nme("op", op).c_str(), 3);
        if (what == 0) { if (k < n) { ++t; ++k; } }
        else if (what == 1) { const int s = sym_choice(nme("to", op).c_str(), n + 3) - 1; bool thrown = false; if (s >= 0 && s <= n) { t.setCurrentStepNum(s); k = s; } else { try { t.setCurrentStepNum(s); } catch (const std::exception&) { thrown = true; } sym_check(thrown, "a step number that does not exist is rejected"); } }
        else { while (!t.done() && k <= n) { state(t, dt, k); ++t; ++k; } }
        state(t, dt, k);
    }
    const double x = sym_real("T", 0, 10); t.setTotalTime(x); sym_check_eq(t.totalTime(), x, "total time can be set");
}
#elif PART == 48
#include <opm/core/utility/Units.hpp>
#include <opm/core/utility/Average.hpp>
static void same(double a, double b, const char* w) { sym_check(std::fabs(a / b - 1) < 1e-9, w); }
extern "C" void harness()
{
    using namespace Opm; using namespace Opm::unit; using namespace Opm::prefix;
    const double q = sym_real("q", -1000, 1000), u = sym_real("u", 0.0625, 1000), w = sym_real("w", 0.0625, 1000);
    sym_check_eq(convert::to(convert::from(q, u), u), q, "converting there and back"); sym_check_eq(convert::from(convert::to(q, u), u), q, "converting back and there");
    sym_check_eq(convert::from(q, u * w), convert::from(convert::from(q, u), w), "compound units convert in sequence"); sym_check_eq(convert::to(q, u * w), convert::to(convert::to(q, u), w), "compound units convert in sequence"); sym_check_eq(convert::from(1.0, u), u, "one unit is its SI value");
    sym_check_eq(square(u), u * u, "square of a unit"); sym_check_eq(cubic(u), u * u * u, "cube of a unit");
    const double cases[][2] = { { micro, 1e-6 }, { milli, 1e-3 }, { centi, 0.01 }, { deci, 0.1 }, { kilo, 1e3 }, { mega, 1e6 }, { giga, 1e9 }, { meter, 1 }, { inch, 0.0254 }, { feet, 0.3048 }, { second, 1 }, { minute, 60 }, { hour, 3600 }, { day, 86400 }, { year, 31536000 }, { gallon, 0.003785411784 }, { stb, 0.158987294928 }, { liter, 1e-3 }, { kilogram, 1 }, { pound, 0.45359237 }, { gravity, 9.80665 }, { Newton, 1 }, { lbf, 4.4482216152605 }, { Pascal, 1 }, { barsa, 1e5 }, { atm, 101325 }, { psia, 6894.757293168 }, { Pas, 1 }, { Poise, 0.1 }, { darcy, 9.869232667160130e-13 } };
    for (size_t i = 0; i < sizeof cases / sizeof cases[0]; ++i) same(cases[i][0], cases[i][1], nme("unit constant ", (int)i).c_str());
    const double a = sym_real("a", 0.0625, 64), b = sym_real("b", 0.0625, 64); const double A = utils::arithmeticAverage<double, double>(a, b), H = utils::harmonicAverage(a, b), Gm = utils::geometricAverage(a, b);
    sym_check_eq(A, (a + b) / 2, "arithmetic average"); sym_check_eq(Gm * Gm, a * b, "geometric average"); sym_check_le(0.0, Gm, "geometric average is positive"); sym_check_eq(H * (1 / a + 1 / b), 2.0, "harmonic average");
    const double lo = a < b ? a : b, hi = a < b ? b : a;
    sym_check_le(lo, H, "harmonic average is at least the smaller value"); sym_check_le(H, Gm, "harmonic is at most geometric"); sym_check_le(Gm, A, "geometric is at most arithmetic"); sym_check_le(A, hi, "arithmetic average is at most the larger value");
    sym_check_eq(utils::arithmeticAverage<double, double>(b, a), A, "symmetric"); sym_check_eq(utils::harmonicAverage(b, a), H, "symmetric"); sym_check_eq(utils::arithmeticAverage<double, double>(a, a), a, "average of equals"); sym_check_eq(utils::harmonicAverage(a, a), a, "average of equals"); sym_check_eq(utils::geometricAverage(a, a), a, "average of equals");
}
#elif PART == 35
#include <opm/core/utility/SparseTable.hpp>
#include <opm/core/utility/SparseVector.hpp>
typedef Opm::SparseTable<double> ST;
static void sameTable(const ST& t, const std::vector<V>& ref)
{
    int tot = 0; sym_check(t.size() == (int)ref.size(), "number of rows"); sym_check(t.empty() == ref.empty(), "empty exactly without rows"); const ST& ct = t; bool sz = true;
    for (size_t r = 0; r < ref.size(); ++r) { tot += ref[r].size(); sz = sz && t.rowSize(r) == (int)ref[r].size() && ct[r].size() == ref[r].size() && ct[r].empty() == ref[r].empty(); if (!sz) break; for (size_t j = 0; j < ref[r].size(); ++j) sym_check_eq(ct[r][j], ref[r][j], "row element"); }
    sym_check(sz, "row sizes"); sym_check(t.dataSize() == tot, "number of elements");
}
extern "C" void harness()
{
    const int nr = sym_choice("rows", 4); std::vector<V> ref; V all; std::vector<int> sizes;
    for (int r = 0; r < nr; ++r) { const int n = sym_choice(nme("len", r).c_str(), 3); V row; for (int j = 0; j < n; ++j) { row.push_back(rvar2("v", r, j, -8, 8)); all.push_back(row.back()); } ref.push_back(row); sizes.push_back(n); }
    ST a; for (int r = 0; r < nr; ++r) a.appendRow(ref[r].begin(), ref[r].end()); sameTable(a, ref);
    V extra; extra.push_back(sym_real("e", -8, 8));
    if (nr) {
    ST b(all.begin(), all.end(), sizes.begin(), sizes.end()); sameTable(b, ref); sym_check(a == b, "both construction routes give equal tables");
    ST c; c.assign(all.begin(), all.end(), sizes.begin(), sizes.end()); sameTable(c, ref);
    ST d; d.allocate(sizes.begin(), sizes.end()); { bool ok = true; for (int r = 0; r < nr; ++r) ok = ok && d.rowSize(r) == sizes[r]; sym_check(ok, "allocated row sizes"); } for (int r = 0; r < nr; ++r) for (int j = 0; j < sizes[r]; ++j) d[r][j] = ref[r][j]; sameTable(d, ref);
{ b.appendRow(extra.begin(), extra.end()); std::vector<V> r2 = ref; r2.push_back(extra); sameTable(b, r2); sym_check(!(a == b), "tables with different rows differ"); c.swap(b); sameTable(c, r2); sameTable(b, ref); }
    if (nr && !ref[nr - 1].empty()) { d[nr - 1][0] = ref[nr - 1][0] + 1; sym_check(!(d == a), "tables with a different element differ"); }
    }
    a.clear(); sym_check(a.empty() && a.dataSize() == 0 && a.size() == 0, "cleared table is empty"); a.appendRow(extra.begin(), extra.end()); sameTable(a, std::vector<V>(1, extra));
    // sparse vector
    const int n = 1 + sym_choice("n", 4); std::vector<int> idx; V val; for (int i = 0; i < n; ++i) if (sym_choice(nme("has", i).c_str(), 2)) { idx.push_back(i); val.push_back(rvar("s", i, -8, 8)); }
    Opm::SparseVector<double> s(n), s2(n, val.begin(), val.end(), idx.begin(), idx.end()); for (size_t i = 0; i < idx.size(); ++i) s.addElement(val[i], idx[i]);
    sym_check(s.size() == n && s.nonzeroSize() == (int)idx.size(), "sparse vector sizes"); sym_check(s == s2, "both sparse vectors are equal");
    const Opm::SparseVector<double>& cs = s;
    for (int i = 0, k = 0; i < n; ++i) { const bool has = k < (int)idx.size() && idx[k] == i; sym_check_eq(cs.element(i), has ? val[k] : 0.0, "stored element or default"); k += has; }
    for (size_t i = 0; i < idx.size(); ++i) { sym_check(cs.nonzeroIndex(i) == idx[i], "nonzero index"); sym_check_eq(cs.nonzeroElement(i), val[i], "nonzero element"); }

    s.clear(); sym_check(s.empty() && s.nonzeroSize() == 0, "cleared sparse vector is empty");
}
#endif
