// C42 initial states.  PART 0: incompressible (all geometry symbolic); 1: blackoil with depth integration; 2: deck saturations and pressures; 3: face pressures.
#include "symutil.hpp"
#include <map>
#include <iostream>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/initState.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
typedef std::vector<double> V;
static const double BAR = 1e5;
struct Flu { int nc, np; V rho, smin, smax, b0, b1, A; Flu(int c, int p, const V& r) : nc(c), np(p), rho(r), smin(rvec("smin", c * p, 0, 0.375)), smax(rvec("smax", c * p, 0.5, 1)), b0(p, 1.0), b1(p, 0.0) {} };
struct IP : public Opm::IncompPropertiesInterface
{
    const Flu& f; IP(const Flu& f_) : f(f_) {}
    int numDimensions() const { return 3; } int numCells() const { return f.nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; }
    int numPhases() const { return f.np; } const double* viscosity() const { return 0; } const double* density() const { return &f.rho[0]; } const double* surfaceDensity() const { return &f.rho[0]; }
    void relperm(const int, const double*, const int*, double*, double*) const {} void capPress(const int, const double*, const int*, double*, double*) const {}
    void satRange(const int n, const int* c, double* a, double* b) const { for (int i = 0; i < n; ++i) for (int p = 0; p < f.np; ++p) { a[i * f.np + p] = f.smin[c[i] * f.np + p]; b[i * f.np + p] = f.smax[c[i] * f.np + p]; } }
};
struct BP : public Opm::BlackoilPropertiesInterface
{
    const Flu& f; BP(const Flu& f_) : f(f_) {}
    int numDimensions() const { return 3; } int numCells() const { return f.nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; }
    int numPhases() const { return f.np; } const double* surfaceDensity() const { return &f.rho[0]; }
    void viscosity(const int, const double*, const double*, const int*, double*, double*) const {}
    void matrix(const int n, const double* p, const double* z, const int* c, double* A, double*) const { for (int i = 0; i < n; ++i) for (int k = 0; k < f.np; ++k) for (int j = 0; j < f.np; ++j) A[(i * f.np + k) * f.np + j] = k == j ? f.b0[k] + f.b1[k] * p[i] : f.A.empty() || !c ? 0 : f.A[(c[i] * f.np + k) * f.np + j]; (void)z; }
    void density(const int n, const double* A, double* r) const { for (int i = 0; i < n; ++i) for (int k = 0; k < f.np; ++k) { r[i * f.np + k] = 0; for (int j = 0; j < f.np; ++j) r[i * f.np + k] += A[(i * f.np + k) * f.np + j] * f.rho[j]; } }
    void relperm(const int, const double*, const int*, double*, double*) const {} void capPress(const int, const double*, const int*, double*, double*) const {}
    void satRange(const int n, const int* c, double* a, double* b) const { IP(f).satRange(n, c, a, b); }
};
#include <opm/core/simulator/initState_impl.hpp>
static void equil(Opm::EclipseGridParser& deck, double z, double p, double woc)
{
    Opm::EQUIL* e = new Opm::EQUIL; Opm::EquilLine l; l.datum_depth_ = z; l.datum_depth_pressure_ = p; l.water_oil_contact_depth_ = woc; l.oil_water_cap_pressure_ = 0; l.gas_oil_contact_depth_ = 0; l.gas_oil_cap_pressure_ = 0; l.live_oil_table_index_ = 0; l.wet_gas_table_index_ = 0; l.N_ = 0;
    e->equil.push_back(l); deck.setSpecialField("EQUIL", Opm::EclipseGridParser::SpecialFieldPtr(e));
}
static void flag(Opm::EclipseGridParser& deck, const char* k) { deck.setIntegerField(k, std::vector<int>()); }
template <class St> static void sats(const St& s, const Flu& f, int c, bool water) { const double sw = s.saturation()[2 * c]; sym_check_eq(sw, water ? f.smax[2 * c] : f.smin[2 * c], water ? "below the contact water saturation is maximal" : "above the contact water saturation is minimal"); sym_check_eq(sw + s.saturation()[2 * c + 1], 1.0, "saturations sum to one"); }
// hydrostatic pressure for piecewise constant densities
static double hyd(double z, double zd, double pd, double woc, double rl, double ru, double g) { if (zd > woc) return z > woc ? pd + (z - zd) * rl * g : pd + (woc - zd) * rl * g + (z - woc) * ru * g; return z > woc ? pd + (woc - zd) * ru * g + (z - woc) * rl * g : pd + (z - zd) * ru * g; }
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit);
#if PART == 0
    UnstructuredGrid* g = DIM == 2 ? create_grid_cart2d(2, 2, 1, 1) : create_grid_hexa3d(NX, 1, NZ, 1, 1, 1); const int nc = g->number_of_cells; Flu f(nc, 2, rvec("rho", 2, 0, 4)); IP ip(f); V z(nc);
    for (int c = 0; c < nc; ++c) z[c] = g->cell_centroids[DIM * c + DIM - 1] = rvar("z", c, 0, 8);
    const double grav = sym_real("g", 0, 16); Opm::TwophaseState st; Opm::parameter::ParameterGroup p; p.disableOutput();
    const int kind = sym_choice("case", 7); double pref = 100 * BAR; const double woc = 4.0; if (kind < 6 && sym_choice("ref", 2)) { p.insertParameter("ref_pressure", "250"); pref = 250 * BAR; }
    switch (kind) {
    case 0: p.insertParameter("water_oil_contact", "4.0"); break;
    case 1: p.insertParameter("segregation_testcase", "true"); p.insertParameter("water_oil_contact", "4.0"); break;
    case 2: p.insertParameter("convection_testcase", "true"); break;
    case 3: p.insertParameter("init_saturation", "0.25"); break;
    case 4: p.insertParameter("water_oil_contact", "4.0"); p.insertParameter("init_saturation", "0.25"); break;
    case 5: break;
    case 6: break;
    }
    if (kind < 6) {
        Opm::initStateBasic(*g, ip, p, grav, st);
        for (int c = 0; c < nc; ++c) {
            double want;
            if (kind == 0 || kind == 4) { sats(st, f, c, z[c] > woc); want = hyd(z[c], woc, pref, woc, f.rho[0], f.rho[1], grav); }
            else if (kind == 1) { sats(st, f, c, !(z[c] > woc)); want = hyd(z[c], woc, pref, woc, f.rho[1], f.rho[0], grav); }
            else if (kind == 2) { sats(st, f, c, c % g->cartdims[0] < g->cartdims[0] / 2); want = pref; }
            else if (kind == 3) { sym_check_eq(st.saturation()[2 * c], 0.25, "prescribed saturation"); sym_check_eq(st.saturation()[2 * c + 1], 0.75, "saturations sum to one"); want = pref + (z[c] - z[0]) * grav * (0.25 * f.rho[0] + 0.75 * f.rho[1]); }
            else { sats(st, f, c, false); want = pref + (z[c] - z[0]) * grav * f.rho[1]; }
            sym_check_eq(st.pressure()[c], want, "pressure is hydrostatic from the reference depth");
        }
    } else {
        Opm::EclipseGridParser deck; flag(deck, "WATER"); flag(deck, "OIL"); const double zd = sym_real("zd", 0, 8), pd = sym_real("pd", 0, 100), w = sym_real("woc", 0, 8); equil(deck, zd, pd, w); Opm::initStateFromDeck(*g, ip, deck, grav, st);
        for (int c = 0; c < nc; ++c) { sats(st, f, c, z[c] > w); sym_check_eq(st.pressure()[c], hyd(z[c], zd, pd, w, f.rho[0], f.rho[1], grav), "pressure is hydrostatic from the datum"); }
    }
    sym_reach("initialised"); destroy_grid(g);
#elif PART == 1
    // five layers with centroids 0.5 .. 4.5; constant (symbolic) or slightly compressible densities
    UnstructuredGrid* g = create_grid_hexa3d(LAYERS == 5 ? 1 : 2, 1, LAYERS, 1, 1, LAYERS == 5 ? 1 : 5); const int nc = LAYERS == 5 ? 5 : 2; V rho(2); rho[0] = 1000; rho[1] = 600; 
    if (!COMPR) { rho[0] = sym_real("rw", 1, 2000); rho[1] = sym_real("ro", 1, 2000); }
    Flu f(nc, 2, rho); if (COMPR) { f.b1[0] = 1e-8; f.b1[1] = 4e-8; } BP bp(f); const double grav = COMPR ? 10 : 1; double pd = sym_real("pd", 1e5, 1e6);
    Opm::BlackoilState st; double woc, zd; static const double wocs[] = { 2.25, -1, 9, 5, 0.25 }, zds[] = { 0.5, 4.5, 2.25, 0.75, 4.25, -0.25, 6 };
    if (DECK) { Opm::EclipseGridParser deck; flag(deck, "WATER"); flag(deck, "OIL"); woc = wocs[WOC]; zd = zds[sym_choice("datum", 7)]; equil(deck, zd, pd, woc); Opm::initStateFromDeck(*g, bp, deck, grav, st); }
    else { Opm::parameter::ParameterGroup p; p.disableOutput(); if (WOC < 5) { char b[16]; std::snprintf(b, 16, "%g", wocs[WOC]); p.insertParameter("water_oil_contact", b); zd = woc = wocs[WOC]; } else { woc = 1e100; zd = 0.5; if (sym_choice("lastfirst", 2)) { for (int c = 0; c < nc; ++c) g->cell_centroids[3 * c + 2] = 4.5 - c; zd = 4.5; } } pd = 100 * BAR; Opm::initStateBasic(*g, bp, p, grav, st); }
    for (int c = 0; c < nc; ++c) {
        const double z = g->cell_centroids[3 * c + 2]; sats(st, f, c, z > woc);
        if (!COMPR) { const double want = hyd(z, zd, pd, woc, rho[0], rho[1], grav), slack = 1e-9 * (1 + pd) + 1e-6; sym_check_le(st.pressure()[c], want + slack, "pressure is hydrostatic"); sym_check_le(want - slack, st.pressure()[c], "pressure is hydrostatic"); }
        else { // densities between surface value and the one at the highest pressure occurring
            const double pmax = pd + 2e5, d = z - zd; double lo = hyd(z, zd, pd, woc, rho[0], rho[1], grav), hi = hyd(z, zd, pd, woc, rho[0] * (1 + f.b1[0] * pmax), rho[1] * (1 + f.b1[1] * pmax), grav); if (d < 0) std::swap(lo, hi);
            sym_check_le(lo - 1, st.pressure()[c], "pressure follows the density of the phase present"); sym_check_le(st.pressure()[c], hi + 1, "pressure follows the density of the phase present"); }
    }
    sym_reach("initialised"); destroy_grid(g);
#elif PART == 2
    UnstructuredGrid* g = create_grid_hexa3d(2, 1, 1, 1, 1, 1); const int nc = 2; int gc[2] = { 3, 1 }; const bool mapped = sym_choice("mapped", 2); std::free(g->global_cell); g->global_cell = 0; if (mapped) { g->global_cell = (int*)std::malloc(sizeof gc); g->global_cell[0] = gc[0]; g->global_cell[1] = gc[1]; }
    const int ph = sym_choice("phases", 3); const int np = ph == 2 ? 3 : 2; V sw = rvec("sw", 4, 0, 0.5), sg = rvec("sg", 4, 0, 0.5), pr = rvec("p", 4, 0, 100);
    Opm::EclipseGridParser deck; flag(deck, "OIL"); if (ph != 1) { flag(deck, "WATER"); deck.setFloatingPointField("SWAT", sw); } if (ph != 0) { flag(deck, "GAS"); deck.setFloatingPointField("SGAS", sg); } deck.setFloatingPointField("PRESSURE", pr);
    Flu f(nc, np, V(np, 1.0)); f.b0 = rvec("b0", np, 0.5, 2); f.b1 = rvec("b1", np, 0, 1); f.A = rvec("A", nc * np * np, 0, 1); BP bp(f); Opm::BlackoilState st; Opm::initStateFromDeck(*g, bp, deck, 10.0, st);
    Opm::initBlackoilSurfvol(*g, bp, st);
    for (int c = 0; c < nc; ++c) {
        const int d = mapped ? gc[c] : c; const double* s = &st.saturation()[np * c]; sym_check_eq(st.pressure()[c], pr[d], "pressure follows the deck");
        if (ph == 0) { sym_check_eq(s[0], sw[d], "water saturation follows the deck"); sym_check_eq(s[1], 1 - sw[d], "saturations sum to one"); } else if (ph == 1) { sym_check_eq(s[1], sg[d], "gas saturation follows the deck"); sym_check_eq(s[0], 1 - sg[d], "saturations sum to one"); } else { sym_check_eq(s[0], sw[d], "water saturation follows the deck"); sym_check_eq(s[2], sg[d], "gas saturation follows the deck"); sym_check_eq(s[1], 1 - sw[d] - sg[d], "saturations sum to one"); }
        for (int r = 0; r < np; ++r) { double zz = 0; for (int k = 0; k < np; ++k) zz += (k == r ? f.b0[k] + f.b1[k] * pr[d] : f.A[(c * np + k) * np + r]) * s[k]; sym_check_eq(st.surfacevol()[np * c + r], zz, "surface volumes are the fluid matrix applied to the saturations"); }
    }
    sym_reach("initialised"); destroy_grid(g);
#else
    UnstructuredGrid* g = create_grid_cart2d(2, 2, 1, 1); const int nc = 4; Opm::TwophaseState st; st.init(*g, 2);
    for (int c = 0; c < nc; ++c) for (int d = 0; d < 2; ++d) g->cell_centroids[2 * c + d] += 0.25 * rvar2("dc", c, d, -1, 1);
    for (int c = 0; c < nc; ++c) st.pressure()[c] = rvar("p", c, 0, 100);
    Opm::initFacePressure(*g, st);
    for (int f = 0; f < g->number_of_faces; ++f) {
        const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; const double x = st.facepressure()[f];
        if (a < 0 || b < 0) { sym_check_eq(x, st.pressure()[a < 0 ? b : a], "boundary face pressure is the cell's pressure"); continue; }
        double d[2]; for (int j = 0; j < 2; ++j) { const int c = g->face_cells[2 * f + j]; const double u = g->face_centroids[2 * f] - g->cell_centroids[2 * c], v = g->face_centroids[2 * f + 1] - g->cell_centroids[2 * c + 1]; d[j] = std::sqrt(u * u + v * v); }
        sym_check_eq(x * (d[0] + d[1]), st.pressure()[a] * d[1] + st.pressure()[b] * d[0], "face pressure is interpolated along the line between the cells");
    }
    sym_reach("initialised"); destroy_grid(g);
#endif
}
