// C21: deck saturation functions (Simple, Stone II, segregated; piecewise linear and uniform tables) behind SaturationPropsFromDeck
#include "symutil.hpp"
#include <opm/core/props/satfunc/SaturationPropsFromDeck.hpp>
#include <opm/core/grid.h>
#include <cstring>
#include <iostream>
typedef std::vector<double> V;
#ifndef SET
#define SET 0
#endif
#ifndef PH
#define PH 1            // 1 oil-water, 2 oil-gas, 3 three-phase
#endif
#ifndef NN
#define NN 3
#endif
#ifndef SYMNODES
#define SYMNODES 0
#endif
#if SET == 0
typedef Opm::SatFuncSimpleNonuniform Set;
#elif SET == 1
typedef Opm::SatFuncStone2Nonuniform Set;
#elif SET == 2
typedef Opm::SatFuncGwsegNonuniform Set;
#elif SET == 3
typedef Opm::SatFuncSimpleUniform Set;
#elif SET == 4
typedef Opm::SatFuncStone2Uniform Set;
#else
typedef Opm::SatFuncGwsegUniform Set;
#endif
typedef Opm::SaturationPropsFromDeck<Set> Props;
typedef Opm::EclipseGridParser Deck;
static const bool UNI = SET >= 3;
struct Tab { V x, y; bool uni;
    int seg(double q) const { int s = 0; const int n = x.size(); while (s + 2 < n && q >= x[s + 1]) ++s; return s; }
    double operator()(double q) const { const int n = x.size(); if (UNI) { if (q <= x[0]) return y[0]; if (q >= x[n - 1]) return y[n - 1]; } const int s = seg(q); return y[s] + (y[s + 1] - y[s]) / (x[s + 1] - x[s]) * (q - x[s]); } };
struct Fn { Tab krw, krow, pcow, krg, krog, pcog; double swco, swmax; };
static Tab tab(const V& x, const V& y) { Tab t; t.x = x; t.y = y; return t; }
static V mono(const std::string& nm, int n, bool up, bool zero, double hi)
{
    V y(n);
    if (UNI) {   // concrete node values (resampling itself is C19, C20); saturations stay symbolic
        static const double c[2][3] = { { 0.0, 0.25, 0.875 }, { 0.0625, 0.5, 0.75 } };
        const int v = zero ? 0 : nm.size() % 2; for (int i = 0; i < n; ++i) y[up ? i : n - 1 - i] = c[v][i] * hi; return y;
    }
    for (int i = 0; i < n; ++i) { const int k = up ? i : n - 1 - i; y[k] = (i == 0 && zero) ? 0.0 : sym_real(nme(nm.c_str(), i).c_str(), 0, hi); if (i) { sym_assume_le(y[up ? k - 1 : k + 1], y[k]); } }
    return y;
}
static void offNode(double q, const Tab& t) { for (size_t i = 0; i < t.x.size(); ++i) sym_assume_ne(q, t.x[i]); }

static void field(Deck& d, const char* k) { d.setIntegerField(k, std::vector<int>(1, 1)); }
static Fn g_fn[2];
static void makeDeck(Deck& deck, int ntab)
{
    if (PH != 2) field(deck, "WATER"); field(deck, "OIL"); if (PH != 1) field(deck, "GAS");
    Opm::SWOF* w = new Opm::SWOF; Opm::SGOF* g = new Opm::SGOF; w->swof_.resize(ntab); g->sgof_.resize(ntab);
    for (int t = 0; t < ntab; ++t) {
        const std::string id(1, char('a' + t)); Fn& f = g_fn[t];
        V sw(NN), sg(NN); const double base = t ? 0.125 : 0.25;
        for (int i = 0; i < NN; ++i) sw[i] = base + (1 - base) * i / (NN - 1);
        if (SYMNODES) for (int i = 0; i < NN; ++i) { sw[i] = sym_real(nme(("sw" + id).c_str(), i).c_str(), 0, 1); if (i) sym_assume_lt(sw[i - 1], sw[i]); }
        f.swco = PH == 2 ? 0.0 : sw[0]; f.swmax = PH == 2 ? 1.0 : sw[NN - 1];
        if (PH == 3) for (int i = 0; i < NN; ++i) sg[i] = (1 - base) * i / (NN - 1);
        else { for (int i = 0; i < NN; ++i) sg[i] = double(i) / (NN - 1); if (SYMNODES) for (int i = 0; i + 1 < NN; ++i) { sg[i] = sym_real(nme(("sg" + id).c_str(), i).c_str(), 0, 0.999); if (i) sym_assume_lt(sg[i - 1], sg[i]); } }
        f.krw = tab(sw, mono("krw" + id, NN, true, SET == 0 || SET == 3, 1)); f.krow = tab(sw, mono("krow" + id, NN, false, SET == 0 || SET == 3, 1)); f.pcow = tab(sw, mono("pcow" + id, NN, false, false, 4));
        if (SET == 1 || SET == 4) sym_assume_le(0.125, f.krow.y[0]);
        f.krg = tab(sg, mono("krg" + id, NN, true, false, 1)); f.krog = tab(sg, mono("krog" + id, NN, false, false, 1)); f.pcog = tab(sg, mono("pcog" + id, NN, true, false, 4));
        w->swof_[t].push_back(sw); w->swof_[t].push_back(f.krw.y); w->swof_[t].push_back(f.krow.y); w->swof_[t].push_back(f.pcow.y);
        g->sgof_[t].push_back(sg); g->sgof_[t].push_back(f.krg.y); g->sgof_[t].push_back(f.krog.y); g->sgof_[t].push_back(f.pcog.y);
    }
    if (PH != 2) deck.setSpecialField("SWOF", Deck::SpecialFieldPtr(w)); if (PH != 1) deck.setSpecialField("SGOF", Deck::SpecialFieldPtr(g));
}
static V kref(const Fn& f, const V& s)
{
    V k(s.size());
    if (PH == 1) { k[0] = f.krw(s[0]); k[1] = f.krow((SET == 0 || SET == 3) ? 1.0 - s[1] : s[0]); return k; }
    if (PH == 2) { k[1] = f.krg(s[1]); k[0] = f.krog(s[1]); return k; }
    if (SET == 0 || SET == 3) { k[0] = f.krw(s[0]); k[2] = f.krg(s[2]); k[1] = f.krow(s[0] + s[2]); }
    else if (SET == 1 || SET == 4) {
        const double kw = f.krw(s[0]), kg = f.krg(s[2]), c = f.krow.y[0]; k[0] = kw; k[2] = kg;
        const double v = c * ((f.krow(s[0] + s[2]) / c + kw) * (f.krog(s[2]) / c + kg) - kw - kg); k[1] = v < 0.0 ? 0.0 : v;
    } else {
        const double t = s[0] + s[2], d = t - f.swco, xw = (s[0] - f.swco) / d, xg = s[2] / d;
        k[0] = xw * f.krw(t); k[2] = xg * f.krg(d); k[1] = xw * f.krow(t) + xg * f.krog(d);
    }
    return k;
}
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit);
    const int np = PH == 3 ? 3 : 2; const int satnum = sym_choice("satnum", 2), ntab = satnum + 1;
    Deck deck; makeDeck(deck, ntab);
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.number_of_cells = 2; int gc[2] = { 2, 0 };
    const bool gcell = satnum && sym_choice("global_cell", 2); g.global_cell = gcell ? gc : 0;
    if (satnum) { std::vector<int> sn(3, 1); sn[1] = 2; sn[2] = 2; deck.setIntegerField("SATNUM", sn); }   // cell 0 -> table 1 only through the map
    Props props; props.init(deck, g, NN);
    sym_check(props.numPhases() == np, "number of phases");
    const int cell = satnum ? sym_choice("cell", 2) : 0;
    const int table = !satnum ? 0 : gcell ? (cell == 0 ? 1 : 0) : cell;
    const Fn& f = g_fn[table];
    V lo(np), hi(np); props.satRange(1, &cell, &lo[0], &hi[0]);
    const int w = 0, o = PH == 2 ? 0 : 1, gp = PH == 3 ? 2 : 1;
    sym_check_eq(lo[o], 1.0 - f.swmax, "smallest oil saturation"); sym_check_eq(hi[o], 1.0 - f.swco, "largest oil saturation");
    if (PH != 2) { sym_check_eq(lo[w], f.swco, "smallest water saturation"); sym_check_eq(hi[w], f.swmax, "largest water saturation"); }
    if (PH != 1) { sym_check_eq(lo[gp], f.krg.x[0], "smallest gas saturation"); sym_check_eq(hi[gp], f.krg.x[NN - 1], "largest gas saturation"); }
    // a point with saturations summing to one, inside the tables
    V s(np);
    if (PH == 1) { s[0] = sym_real("sw", 0, 1); s[1] = 1.0 - s[0]; sym_assume_le(f.swco, s[0]); sym_assume_le(s[0], f.swmax); }
    else if (PH == 2) { s[1] = sym_real("sg", 0, 1); s[0] = 1.0 - s[1]; sym_assume_le(f.krg.x[0], s[1]); sym_assume_le(s[1], f.krg.x[NN - 1]); }
    else { s[0] = sym_real("sw", 0, 1); s[2] = sym_real("sg", 0, 1); s[1] = 1.0 - s[0] - s[2]; sym_assume_le(f.swco, s[0]); sym_assume_le(s[0] + s[2], 1.0); if (SET == 2 || SET == 5) sym_assume_le(f.swco + 0.03125, s[0] + s[2]); }
    V kr(np), kr2(np), D(np * np, 7.0), pc(np), pc2(np), dpc(np * np, 7.0);
    props.relperm(1, &s[0], &cell, &kr[0], 0); props.capPress(1, &s[0], &cell, &pc[0], 0);
    const V ref = kref(f, s);
    for (int p = 0; p < np; ++p) { sym_check_eq(kr[p], ref[p], "relative permeability is that of the tables"); sym_check_le(0.0, kr[p], "relative permeability is not negative"); }
    sym_check_eq(pc[o], 0.0, "oil is the reference phase"); if (PH != 2) sym_check_eq(pc[w], f.pcow(s[w]), "water capillary pressure"); if (PH != 1) sym_check_eq(pc[gp], f.pcog(s[gp]), "gas capillary pressure");
    if (!sym_choice("derivatives", 2)) return;
    // derivative matrices, at points where the tables are differentiable: fresh independent saturations
    if (PH == 1) offNode(s[0], f.krw); else if (PH == 2) offNode(s[1], f.krg);
    else { offNode(s[0], f.krw); offNode(s[0] + s[2], f.krw); offNode(s[2], f.krg); if (SET == 2 || SET == 5) offNode(s[0] + s[2] - f.swco, f.krg); if (SET == 1 || SET == 4) sym_assume_ne(kref(f, s)[1], 0.0); }
    props.relperm(1, &s[0], &cell, &kr2[0], &D[0]); props.capPress(1, &s[0], &cell, &pc2[0], &dpc[0]);
    for (int p = 0; p < np; ++p) { sym_check_eq(kr2[p], kr[p], "same values with derivatives"); sym_check_eq(pc2[p], pc[p], "same capillary pressure with derivatives"); }
    const int nx = PH == 3 ? 2 : 1; V x(nx); x[0] = PH == 2 ? s[1] : s[0]; if (nx == 2) x[1] = s[2];
    for (int p = 0; p < np; ++p) for (int k = 0; k < nx; ++k) {
        struct E { const Props& q; int cell, p, np, what; double operator()(const V& x) const {
            V s(np), r(np); if (PH == 1) { s[0] = x[0]; s[1] = 1.0 - x[0]; } else if (PH == 2) { s[1] = x[0]; s[0] = 1.0 - x[0]; } else { s[0] = x[0]; s[2] = x[1]; s[1] = 1.0 - x[0] - x[1]; }
            if (what) q.capPress(1, &s[0], &cell, &r[0], 0); else q.relperm(1, &s[0], &cell, &r[0], 0);
            return r[p]; } };
        const int col = PH == 2 ? 1 : k == 0 ? 0 : 2;      // phase whose saturation grows at the expense of oil
        E e = { props, cell, p, np, 0 }; sym_check_eq(deriv_of(e, x, k, 1e-7), D[p + np * col] - D[p + np * o], "relative permeability derivative");
        e.what = 1; sym_check_eq(deriv_of(e, x, k, 1e-7), dpc[p + np * col] - dpc[p + np * o], "capillary pressure derivative");
    }
}
