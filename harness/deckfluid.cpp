// C25: BlackoilPropertiesFromDeck / BlackoilPvtProperties; C51 (PART=1): rock and incompressible fluid properties from a deck
#include "symutil.hpp"
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/pvt/SinglePvtConstCompr.hpp>
#include <opm/core/props/pvt/SinglePvtDead.hpp>
#include <opm/core/props/pvt/SinglePvtDeadSpline.hpp>
#include <opm/core/props/pvt/SinglePvtLiveOil.hpp>
#include <opm/core/props/pvt/SinglePvtLiveGas.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/ErrorMacros.hpp>
#include <opm/core/grid.h>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include <memory>
#ifndef PART
#define PART 0
#endif
#ifndef PH
#define PH 3
#endif
#ifndef OIL
#define OIL 2      // 0 dead, 1 constant compressibility, 2 live, 3 dead resampled
#endif
#ifndef GAS
#define GAS 1      // 0 dead, 1 live, 2 dead resampled
#endif
typedef std::vector<double> V; typedef std::vector<V> VV; typedef std::vector<VV> VVV; typedef Opm::EclipseGridParser Deck;
template <class T> static T* special(Deck& d, const char* k) { T* t = new T; d.setSpecialField(k, Deck::SpecialFieldPtr(t)); return t; }
static void field(Deck& d, const char* k) { d.setIntegerField(k, std::vector<int>(1, 1)); }
static V vec(double a, double b) { V v(2); v[0] = a; v[1] = b; return v; }
static V vec(double a, double b, double c) { V v = vec(a, b); v.push_back(c); return v; }
static void satTables(Deck& deck, int ph)
{
    if (ph != 2) { Opm::SWOF* w = special<Opm::SWOF>(deck, "SWOF"); w->swof_.resize(1); w->swof_[0].push_back(vec(0.25, 0.5, 1.0)); w->swof_[0].push_back(vec(0, 0.25, 1.0)); w->swof_[0].push_back(vec(1.0, 0.5, 0)); w->swof_[0].push_back(vec(2, 1, 0)); }
    if (ph != 1) { const double c = ph == 3 ? 0.75 : 1.0; Opm::SGOF* g = special<Opm::SGOF>(deck, "SGOF"); g->sgof_.resize(1); g->sgof_[0].push_back(vec(0, 0.5, c)); g->sgof_[0].push_back(vec(0, 0.25, 1.0)); g->sgof_[0].push_back(vec(1.0, 0.5, 0)); g->sgof_[0].push_back(vec(0, 1, 2)); }
}
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
#if PART == 0
    const int np = PH == 3 ? 3 : 2, W = PH == 2 ? -1 : 0, O = PH == 2 ? 0 : 1, G = PH == 1 ? -1 : np - 1;
    Deck deck; if (W >= 0) field(deck, "WATER"); field(deck, "OIL"); if (G >= 0) field(deck, "GAS");
    const V dens = rvec("density", 3, 0.5, 8); special<Opm::DENSITY>(deck, "DENSITY")->densities_.assign(1, dens);
    satTables(deck, PH);
    const V pt = vec(2, 5);
    std::vector<std::shared_ptr<Opm::SinglePvtInterface> > ref(np); const int samples = (OIL == 3 || GAS == 2) ? 3 : 0;
    if (W >= 0) { if (sym_choice("water default", 2)) ref[W].reset(new Opm::SinglePvtConstCompr(0.5e-3)); else { const VV t(1, rvec("pvtw", 5, 0.0625, 2)); special<Opm::PVTW>(deck, "PVTW")->pvtw_ = t; ref[W].reset(new Opm::SinglePvtConstCompr(t)); } }
    if (OIL == 1) { const VV t(1, rvec("pvcdo", 5, 0.0625, 2)); special<Opm::PVCDO>(deck, "PVCDO")->pvcdo_ = t; ref[O].reset(new Opm::SinglePvtConstCompr(t)); }
    else if (OIL == 2) { VVV t(1, VV(2)); for (int i = 0; i < 2; ++i) { V r; r.push_back(1.0 + i); r.push_back(pt[i]); for (int k = 0; k < 2; ++k) r.push_back(rvar2("pvto", i, k, 0.75, 1.25)); r.push_back(pt[i] + 4); for (int k = 2; k < 4; ++k) r.push_back(rvar2("pvto", i, k, 0.75, 1.25)); t[0][i] = r; } special<Opm::PVTO>(deck, "PVTO")->pvto_ = t; ref[O].reset(new Opm::SinglePvtLiveOil(t)); }
    else { VVV t(1, VV(3)); t[0][0] = pt; t[0][1] = OIL == 3 ? vec(2, 1) : rvec("pvdoB", 2, 0.5, 2); t[0][2] = OIL == 3 ? vec(1, 2) : rvec("pvdomu", 2, 0.5, 2); special<Opm::PVDO>(deck, "PVDO")->pvdo_ = t; if (samples) ref[O].reset(new Opm::SinglePvtDeadSpline(t, samples)); else ref[O].reset(new Opm::SinglePvtDead(t)); }
    if (G >= 0) {
        if (GAS == 1) { VVV t(1, VV(2)); for (int i = 0; i < 2; ++i) { V r; r.push_back(pt[i]); r.push_back(0.25 * (1 + i)); for (int k = 0; k < 2; ++k) r.push_back(rvar2("pvtg", i, k, 0.75, 1.25)); r.push_back(0.0); for (int k = 2; k < 4; ++k) r.push_back(rvar2("pvtg", i, k, 0.75, 1.25)); t[0][i] = r; } special<Opm::PVTG>(deck, "PVTG")->pvtg_ = t; ref[G].reset(new Opm::SinglePvtLiveGas(t)); }
        else { VVV t(1, VV(3)); t[0][0] = pt; t[0][1] = GAS == 2 ? vec(2, 1) : rvec("pvdgB", 2, 0.5, 2); t[0][2] = GAS == 2 ? vec(1, 2) : rvec("pvdgmu", 2, 0.5, 2); special<Opm::PVDG>(deck, "PVDG")->pvdg_ = t; if (samples) ref[G].reset(new Opm::SinglePvtDeadSpline(t, samples)); else ref[G].reset(new Opm::SinglePvtDead(t)); }
    }
    int pos[3] = { 0, W >= 0 ? 1 : 0, W >= 0 ? 2 : 1 }; for (int k = 0; k < np; ++k) ref[k]->setPhaseConfiguration(np, pos);
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.number_of_cells = 4; g.dimensions = 3;
    Opm::parameter::ParameterGroup param; param.disableOutput(); param.insertParameter("pvt_tab_size", samples ? "3" : "0"); param.insertParameter("sat_tab_size", "0");
    Opm::BlackoilPropertiesFromDeck props(deck, g, param, false);
    sym_check(props.numPhases() == np, "number of phases");
    if (W >= 0) sym_check_eq(props.surfaceDensity()[W], dens[1], "surface density of water"); sym_check_eq(props.surfaceDensity()[O], dens[0], "surface density of oil"); if (G >= 0) sym_check_eq(props.surfaceDensity()[G], dens[2], "surface density of gas");
    // several cells at once; the first is fully symbolic
    const int n = 3, NA = np * np; const int cells[3] = { 3, 0, 2 }, one = 1;
    double p[3] = { sym_real("p", 2, 5), 3.0, 4.5 }; V z(n * np, 1.0); for (int k = 0; k < np; ++k) z[k] = rvar("z", k, k == O ? 0.25 : 1, k == O ? 1 : 4); z[np + O] = 0.5; z[2 * np + np - 1] = 1.5;
    for (int k = 0; k < 2; ++k) sym_assume_ne(p[0], pt[k]); if (samples) sym_assume_ne(p[0], 3.5);
    V A(n * NA, 7.0), dA(n * NA, 7.0), A2(n * NA, 7.0), mu(n * np), rho(n * np);
    props.matrix(n, p, &z[0], cells, &A[0], &dA[0]); props.matrix(n, p, &z[0], cells, &A2[0], 0); props.viscosity(n, p, &z[0], cells, &mu[0], 0); props.density(n, &A[0], &rho[0]);
    for (int i = 0; i < n; ++i) {
        V B(np), R(np), M(np); for (int k = 0; k < np; ++k) { ref[k]->B(1, p + i, &z[i * np], &B[k]); ref[k]->R(1, p + i, &z[i * np], &R[k]); ref[k]->mu(1, p + i, &z[i * np], &M[k]); if (i == 0) sym_assume_lt(0.0625, B[k]); }
        const double* a = &A[i * NA];
        for (int r = 0; r < np; ++r) for (int c = 0; c < np; ++c) {
            double e = r == c ? 1.0 / B[c] : 0.0; if (G >= 0 && r == G && c == O) e = R[O] / B[O]; if (G >= 0 && r == O && c == G) e = R[G] / B[G];
            sym_check_eq(a[r + c * np], e, "matrix entry from formation factors and dissolved ratios"); sym_check_eq(A2[i * NA + r + c * np], a[r + c * np], "same matrix with and without derivatives");
        }
        for (int k = 0; k < np; ++k) { sym_check_eq(mu[i * np + k], M[k], "viscosity of each phase"); double d = 0; for (int c = 0; c < np; ++c) d += a[c + k * np] * props.surfaceDensity()[c]; sym_check_eq(rho[i * np + k], d, "density is the matrix applied to surface densities"); }
        V b(NA), db(NA), m1(np); props.matrix(1, p + i, &z[i * np], &one, &b[0], &db[0]); props.viscosity(1, p + i, &z[i * np], &one, &m1[0], 0);
        for (int k = 0; k < NA; ++k) { sym_check_eq(b[k], a[k], "matrix independent of the other cells"); sym_check_eq(db[k], dA[i * NA + k], "matrix derivative independent of the other cells"); }
        for (int k = 0; k < np; ++k) sym_check_eq(m1[k], mu[i * np + k], "viscosity independent of the other cells");
    }
    sym_native_tol(1e-4, 1e-5);
    for (int k = 0; k < NA; ++k) sym_check_eq(dA[k], deriv_of([&](const V& v) { V a(NA); props.matrix(1, &v[0], &z[0], &one, &a[0], 0); return a[k]; }, V(1, p[0]), 0, 1e-5), "pressure derivative of the matrix");
#elif PART == 1
    // rock: every combination of permeability keywords
    static const char* kw[9] = { "PERMX", "PERMXY", "PERMXZ", "PERMYX", "PERMY", "PERMYZ", "PERMZX", "PERMZY", "PERMZ" };
    Deck deck; const int ng = 4, nc = 3; int gc[3] = { 2, 3, 0 }; const bool map = sym_choice("global_cell", 2); const bool poro = sym_choice("poro", 2);
    V ph = rvec("poro", ng, 0, 1); if (poro) deck.setFloatingPointField("PORO", ph);
    bool has[9]; V val[9]; int ncomp = 0; 
    for (int k = 0; k < 9; ++k) { has[k] = sym_choice(kw[k], 2); if (has[k]) { ++ncomp; val[k] = rvec(kw[k], ng, (k % 4) ? -4 : 0, 8); deck.setFloatingPointField(kw[k], val[k]); } }
    bool ok = true;   // a cross term needs both its diagonal entries
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j && has[3 * i + j] && !(has[4 * i] && has[4 * j])) ok = false;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (has[3 * i + j] && has[3 * j + i]) return;    // conflicting data: not specified
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.number_of_cells = nc; g.dimensions = 3; g.cartdims[0] = 2; g.cartdims[1] = 2; g.cartdims[2] = 1; g.global_cell = map ? gc : 0;
    Opm::RockFromDeck rock; bool thrown = false;
    try { rock.init(deck, g); } catch (std::exception&) { thrown = true; }
    sym_check(thrown == !ok, "cross terms without diagonal entries are rejected, everything else accepted");
    if (thrown || !ok) return;
    sym_check(rock.numDimensions() == 3 && rock.numCells() == nc, "sizes");
    for (int c = 0; c < nc; ++c) {
        const int d = map ? gc[c] : c;
        sym_check_eq(rock.porosity()[c], poro ? ph[d] : 1.0, "porosity of the deck cell");
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            const double k = rock.permeability()[9 * c + 3 * i + j]; sym_check_eq(k, rock.permeability()[9 * c + 3 * j + i], "symmetric tensor");
            if (i != j) sym_check_eq(k, has[3 * i + j] ? val[3 * i + j][d] : has[3 * j + i] ? val[3 * j + i][d] : 0.0, "off-diagonal entry");
            else if (has[4 * i]) sym_check_eq(k, val[4 * i][d], "diagonal entry");
            else if (ncomp == 1) for (int l = 0; l < 3; ++l) if (has[4 * l]) sym_check_eq(k, val[4 * l][d], "one component means an isotropic tensor");
        }
        if (!has[0] && !has[4] && !has[8]) for (int i = 0; i < 9; ++i) sym_check_eq(rock.permeability()[9 * c + i], 0.0, "no permeability given");
    }
#else
    // incompressible two-phase fluid from a deck
    Deck deck; const int drop = sym_choice("missing keyword", 4), gas = sym_choice("gas", 2); field(deck, "WATER"); field(deck, "OIL"); if (gas) field(deck, "GAS"); satTables(deck, gas ? 3 : 1);
    const V dens = rvec("density", 3, 0.5, 8), w = rvec("pvtw", 5, 0.0625, 2), o = rvec("pvcdo", 5, 0.0625, 2);
    if (drop != 1) special<Opm::DENSITY>(deck, "DENSITY")->densities_.assign(1, dens); if (drop != 2) special<Opm::PVTW>(deck, "PVTW")->pvtw_.assign(1, w); if (drop != 3) special<Opm::PVCDO>(deck, "PVCDO")->pvcdo_.assign(1, o);
    V poro = rvec("poro", 2, 0, 1), px = rvec("permx", 2, 0, 4); deck.setFloatingPointField("PORO", poro); deck.setFloatingPointField("PERMX", px);
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.number_of_cells = 2; g.dimensions = 3; g.cartdims[0] = 2; g.cartdims[1] = 1; g.cartdims[2] = 1; int gc[2] = { 1, 0 }; g.global_cell = gc;
    bool thrown = false; std::shared_ptr<Opm::IncompPropertiesFromDeck> pr;
    try { pr.reset(new Opm::IncompPropertiesFromDeck(deck, g)); } catch (std::exception&) { thrown = true; }
    sym_check(thrown == (drop || gas), "missing keywords and gas are rejected, everything else accepted"); if (thrown) return;
    sym_check(pr->numPhases() == 2 && pr->numCells() == 2 && pr->numDimensions() == 3, "sizes");
    sym_check_eq(pr->surfaceDensity()[0], dens[1], "surface density of water"); sym_check_eq(pr->surfaceDensity()[1], dens[0], "surface density of oil");
    sym_check_eq(pr->density()[0] * w[1], dens[1], "reservoir density of water"); sym_check_eq(pr->density()[1] * o[1], dens[0], "reservoir density of oil");
    sym_check_eq(pr->viscosity()[0], w[3], "water viscosity"); sym_check_eq(pr->viscosity()[1], o[3], "oil viscosity");
    for (int c = 0; c < 2; ++c) { sym_check_eq(pr->porosity()[c], poro[gc[c]], "porosity"); for (int i = 0; i < 9; ++i) sym_check_eq(pr->permeability()[9 * c + i], i % 4 ? 0.0 : px[gc[c]], "permeability"); }
    Opm::SaturationPropsFromDeck<Opm::SatFuncSimpleUniform> sp; sp.init(deck, g, 200); const int cells[2] = { 1, 0 }; V s(4); s[0] = sym_choice("s", 2) ? 0.375 : 0.625; s[1] = 1 - s[0]; s[2] = 0.75; s[3] = 0.25;
    V a(4), b(4), da(8), db(8); pr->relperm(2, &s[0], cells, &a[0], &da[0]); sp.relperm(2, &s[0], cells, &b[0], &db[0]); for (int i = 0; i < 8; ++i) { if (i < 4) sym_check_eq(a[i], b[i], "relative permeability of the deck"); sym_check_eq(da[i], db[i], "relative permeability derivatives of the deck"); }
    pr->capPress(2, &s[0], cells, &a[0], &da[0]); sp.capPress(2, &s[0], cells, &b[0], &db[0]); for (int i = 0; i < 8; ++i) { if (i < 4) sym_check_eq(a[i], b[i], "capillary pressure of the deck"); sym_check_eq(da[i], db[i], "capillary pressure derivatives of the deck"); }
    pr->satRange(2, cells, &a[0], &b[0]); for (int i = 0; i < 2; ++i) { sym_check_eq(a[2 * i], 0.25, "smallest water saturation"); sym_check_eq(b[2 * i], 1.0, "largest water saturation"); sym_check_eq(a[2 * i + 1], 0.0, "smallest oil saturation"); sym_check_eq(b[2 * i + 1], 0.75, "largest oil saturation"); }
#endif
}
