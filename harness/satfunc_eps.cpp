// C21: end-point scaling of deck relative permeabilities (ENDSCALE, SCALECRS; oil-water)
#include "symutil.hpp"
#include <opm/core/props/satfunc/SaturationPropsFromDeck.hpp>
#include <opm/core/grid.h>
#include <cstring>
#include <iostream>
typedef std::vector<double> V;
#ifndef UNIF
#define UNIF 0
#endif
#ifndef PHASE
#define PHASE 0   // 0: water curve, 1: oil curve
#endif
#ifndef SHAPE
#define SHAPE 0   // 0: distinct end points, 1: the other phase is mobile up to the end of the table
#endif
#if UNIF
typedef Opm::SatFuncSimpleUniform Set;
#else
typedef Opm::SatFuncSimpleNonuniform Set;
#endif
typedef Opm::SaturationPropsFromDeck<Set> Props;
typedef Opm::EclipseGridParser Deck;
static double interp(const V& x, const V& y, double q) { const int n = x.size(); int s = 0; while (s + 2 < n && q >= x[s + 1]) ++s; return y[s] + (y[s + 1] - y[s]) / (x[s + 1] - x[s]) * (q - x[s]); }
// piecewise linear map taking a[i] to b[i], constant outside
static double plmap(const V& a, const V& b, double q)
{
    const int n = a.size(); if (q <= a[0]) return b[0];
    for (int i = 0; i + 1 < n; ++i) if (q <= a[i + 1]) return b[i] + (q - a[i]) * (b[i + 1] - b[i]) / (a[i + 1] - a[i]);
    return b[n - 1];
}
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit);
    Deck deck; deck.setIntegerField("WATER", std::vector<int>(1, 1)); deck.setIntegerField("OIL", std::vector<int>(1, 1));
    Opm::SWOF* tabs = new Opm::SWOF; tabs->swof_.resize(1);
    const int NT = SHAPE ? 4 : 5;
    const double x0[5] = { 0.125, 0.25, 0.5, 0.75, 0.875 }, x1[4] = { 0.125, 0.375, 0.625, 0.875 };
    V sw(SHAPE ? x1 : x0, (SHAPE ? x1 : x0) + NT), a(NT, 0.0), b(NT, 0.0);
    // the curve under test is symbolic, the other concrete
    const int lead = SHAPE ? 1 : 2; V y(NT, 0.0);
    for (int i = lead; i < NT; ++i) { y[i] = UNIF ? 0.25 * (i - lead + 1) : rvar("kr", i, 0.0625, 1); if (i > lead && !UNIF) sym_assume_le(y[i - 1], y[i]); }
    V z(NT, 0.0); for (int i = lead; i < NT; ++i) z[i] = 0.25 * (i - lead + 1);
    for (int i = 0; i < NT; ++i) { a[i] = PHASE ? z[i] : y[i]; b[NT - 1 - i] = PHASE ? y[i] : z[i]; }
    tabs->swof_[0].push_back(sw); tabs->swof_[0].push_back(a); tabs->swof_[0].push_back(b); tabs->swof_[0].push_back(V(NT, 0.0));
    deck.setSpecialField("SWOF", Deck::SpecialFieldPtr(tabs));
    Opm::ENDSCALE* es = new Opm::ENDSCALE; es->dir_switch_ = "NODIR"; es->revers_switch_ = "REVERS"; deck.setSpecialField("ENDSCALE", Deck::SpecialFieldPtr(es));
    const bool p3 = sym_choice("three_point", 2);
    if (p3) { Opm::SCALECRS* sc = new Opm::SCALECRS; sc->scalecrs_ = "YES"; deck.setSpecialField("SCALECRS", Deck::SpecialFieldPtr(sc)); }
    // scaled end points in terms of the phase's own saturation: critical, middle (other phase critical), maximal
    const double tc = SHAPE ? 0.125 : 0.25, tm = SHAPE ? 0.875 : 0.75, tx = 0.875;     // table values (the same for both phases by symmetry)
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.dimensions = 3; g.number_of_cells = 2; int gc[2] = { 1, 0 }; g.global_cell = gc;
    double cc[6] = { 0, 0, 9, 0, 0, 9 }; g.cell_centroids = cc;
    const int cell = 0;
    const char* kC = PHASE ? "SOWCR" : "SWCR"; const char* kM = PHASE ? "SWCR" : "SOWCR"; const char* kX = PHASE ? "SWL" : "SWU"; const char* kMax = PHASE ? "KRO" : "KRW"; const char* kMid = PHASE ? "KRORW" : "KRWR";
    const bool hC = sym_choice("has_crit", 2), hM = sym_choice("has_mid", 2), hX = sym_choice("has_max", 2), hKx = sym_choice("has_krmax", 2), hKm = sym_choice("has_krmid", 2);
    const bool hOther = !hM && sym_choice("other_krmax", 2);     // a keyword of the other phase
    const int depth = sym_choice("by_depth", 2);          // critical saturation given by a depth table
    if (depth && (!hC || hM || hX)) return;
    double sc = hC ? sym_real("crit", 0, 0.5) : tc, sm = hM ? sym_real("mid", 0.5, 1) : tm, sx = hX ? sym_real("max", 0.5, 1) : tx;
    if (depth) {
        const double d0 = 8, d1 = 16, v0 = sym_real("v0", 0, 0.5), v1 = sym_real("v1", 0, 0.5), z0 = sym_real("z", 4, 20); cc[2] = z0;
        Opm::ENPTVD* e = new Opm::ENPTVD; e->table_.resize(5); e->mask_.assign(4, false); e->mask_[PHASE ? 3 : 1] = true;
        for (int i = 0; i < 5; ++i) { V v(2, -1.0); if (i == 0) { v[0] = d0; v[1] = d1; } if (i == (PHASE ? 4 : 2)) { v[0] = v0; v[1] = v1; } e->table_[i].push_back(v); }
        deck.setSpecialField("ENPTVD", Deck::SpecialFieldPtr(e));
        if (z0 >= d0 && z0 <= d1) sc = v0 + (v1 - v0) * (z0 - d0) / (d1 - d0); else sc = tc;
    }
    sym_assume_le(sc, sm - 0.015625); sym_assume_le(sm, sx);
    const double KX = hKx ? sym_real("KX", 0, 1) : y[NT - 1], KM = hKm ? sym_real("KM", 0, 1) : y[SHAPE ? NT - 1 : NT - 2];
    sym_assume_le(KM, KX);
    { V v(2, 0.4);
      if (hC && !depth) { v[1] = sc; deck.setFloatingPointField(kC, v); }
      if (hM) { v[1] = 1.0 - sm; deck.setFloatingPointField(kM, v); }
      if (hX) { v[1] = PHASE ? 1.0 - sx : sx; deck.setFloatingPointField(kX, v); }
      if (hKx) { v[1] = KX; deck.setFloatingPointField(kMax, v); }
      if (hKm) { v[1] = KM; deck.setFloatingPointField(kMid, v); }
      if (hOther) { v[1] = 0.5; deck.setFloatingPointField(PHASE ? "KRW" : "KRO", v); } }
    Props props; props.init(deck, g, UNIF ? (SHAPE ? 4 : 7) : 0);
    const double krx = y[NT - 1], krm = y[SHAPE ? NT - 1 : NT - 2];
    // reference
    const double q = sym_real("s", 0, 1);
    V s(2), kr(2); s[PHASE] = q; s[1 - PHASE] = 1.0 - q;
    V from, to; from.push_back(sc); to.push_back(tc); if (p3 && SHAPE == 0) { from.push_back(sm); to.push_back(tm); }
    double smid = p3 ? sm : sc + (tm - tc) * (sx - sc) / (tx - tc);
    from.push_back(sx); to.push_back(tx);
    if (p3) { sym_assume_le(sm, sx - 0.015625); if (SHAPE) return; }
    const bool hs = hC || hX || (p3 && hM);
    if (!hs) { sym_assume_le(0.125, q); sym_assume_le(q, 0.875); }     // unscaled: inside the table
    double ts = hs ? plmap(from, to, q) : q;
    V xs(sw); if (PHASE) for (int i = 0; i < NT; ++i) xs[i] = 1.0 - sw[NT - 1 - i];
    const double k0 = interp(xs, y, ts);
    double ref;
    if (!hKx && !hKm) ref = k0;
    else if (!hKm || SHAPE) ref = !hKx ? k0 : k0 * (KX / krx);         // only the maximum (or no interior point): scale to the maximum
    else if (q <= sc) ref = 0.0;
    else if (q <= smid) ref = k0 * (KM / krm);
    else if (q <= sx) { sym_assume_lt(krm, krx - 0.015625); ref = KM + (k0 - krm) * (KX - KM) / (krx - krm); }
    else ref = KX;
    props.relperm(1, &s[0], &cell, &kr[0], 0);
    sym_check_eq(kr[PHASE], ref, "scaled relative permeability");
    if (q <= sc) sym_check_eq(kr[PHASE], 0.0, "immobile up to the scaled critical saturation");
    if (q == sx) sym_check_eq(kr[PHASE], KX, "scaled maximum");
    if (p3 && hKm && q == sm) sym_check_eq(kr[PHASE], KM, "scaled value at the scaled critical saturation of the other phase");
    sym_check_le(0.0, kr[PHASE], "not negative");
}
