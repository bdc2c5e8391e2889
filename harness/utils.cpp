// C26 C27 C28 C29: utility functions over cells, wells and fluid properties
#include "utilprops.hpp"
#include <iostream>
#include <opm/core/grid.h>
#include <opm/core/wells.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#define private public
#include <opm/core/utility/miscUtilities.hpp>
#undef private
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
using namespace Opm;
#ifndef NP
#define NP 2
#endif
static double relu(double x) { return x > 0 ? x : 0; }
struct G { UnstructuredGrid* g; G(int a, int b, int c) : g(c ? create_grid_cart3d(a, b, c) : create_grid_cart2d(a, b, 1, 1)) {} ~G() { destroy_grid(g); } };
#if PART == 26
struct Rock26 : public RockCompressibility { Rock26(const parameter::ParameterGroup& p) : RockCompressibility(p) {} };
extern "C" void harness()
{
    const int kind = sym_choice("kind", 5); EclipseGridParser deck; const int n = 2 + (kind == 2);
    V t = rvec("t", 2, -4, 4), xs = rvec("x", n, 0, 16), ys = rvec("y", n, 0.125, 4); for (int i = 0; i + 1 < n; ++i) sym_assume_le(xs[i] + 0.25, xs[i + 1]);
    if (kind == 0 || kind == 4) { ROCK* r = new ROCK; r->rock_compressibilities_.assign(1, t); deck.setSpecialField("ROCK", EclipseGridParser::SpecialFieldPtr(r)); }
    if (kind == 1 || kind == 2 || kind == 4) { ROCKTAB* r = new ROCKTAB; r->rocktab_.resize(1); r->rocktab_[0].push_back(xs); r->rocktab_[0].push_back(ys); deck.setSpecialField("ROCKTAB", EclipseGridParser::SpecialFieldPtr(r)); }
    RockCompressibility rc(deck); const double p = sym_real("p", 0, 16);
    const bool tab = kind == 1 || kind == 2 || kind == 4;
    if (tab) {
        int k = 0; while (k + 2 < n && p >= xs[k + 1]) ++k;
        const double e = ys[k] + (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]) * (p - xs[k]), d = (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]);
        sym_check(rc.isActive(), "tabulated data makes the model active");
        sym_check_eq(rc.poroMult(p), e, "multiplier is the table's interpolant");
        if (e > 0.015625) sym_check_eq(rc.rockComp(p), d / e, "compressibility is the multiplier's logarithmic derivative");
        for (int i = 0; i < n; ++i) sym_check_eq(rc.poroMult(xs[i]), ys[i], "multiplier at table nodes");
    } else {
        const double c = kind == 0 ? t[1] : 0.0, pr = kind == 0 ? t[0] : 0.0, x = c * (p - pr);
        sym_check(rc.isActive() == (c != 0), "active exactly when the coefficient is nonzero");
        sym_check_eq(rc.poroMult(p), 1 + x + x * x / 2, "quadratic law"); sym_check_eq(rc.poroMult(pr), 1.0, "one at the reference pressure"); sym_check_eq(rc.rockComp(p), c, "constant compressibility");
    }
    if (kind == 3) {
        parameter::ParameterGroup q; q.disableOutput(); const int given = sym_choice("given", 2); double pref = 100.0, cc = 0.0;
        if (given) { q.insertParameter("rock_compressibility_pref", "250"); q.insertParameter("rock_compressibility", "0.5"); pref = 250; cc = 0.5; }
        RockCompressibility r2(q); const double x = cc / 1e5 * (p - pref * 1e5);
        sym_check(r2.isActive() == (given != 0), "parameters: active exactly when a coefficient is given"); sym_check_eq(r2.poroMult(p), 1 + x + x * x / 2, "parameters: quadratic law in bar");
    }
    G g(2, 1, 0); V por = rvec("por", 2, 0, 1), vol = rvec("vol", 2, 0, 4), pr = rvec("pr", 2, 0, 16), pv(1, -7.0), po(5, -7.0); for (int i = 0; i < 2; ++i) g.g->cell_volumes[i] = vol[i];
    computePorevolume(*g.g, &por[0], rc, pr, pv); computePorosity(*g.g, &por[0], rc, pr, po);
    sym_check(pv.size() == 2 && po.size() == 2, "one entry per cell");
    for (int i = 0; i < 2; ++i) { sym_check_eq(pv[i], por[i] * vol[i] * rc.poroMult(pr[i]), "pore volume with compressibility"); sym_check_eq(po[i], por[i] * rc.poroMult(pr[i]), "porosity with compressibility"); }
    computePorevolume(*g.g, &por[0], pv); for (int i = 0; i < 2; ++i) sym_check_eq(pv[i], por[i] * vol[i], "pore volume");
}
#elif PART == 27
extern "C" void harness()
{
    const int nc = 3, np = NP; AnyFluid f(nc, np); AnyIncomp ip(f); AnyBlackoil bp(f);
    V pv = rvec("pv", nc, 0.125, 4), s = rvec("s", nc * np, 0, 1), sv(np + 1, -7.0), as(np + 1, -7.0);
    computeSaturatedVol(pv, s, &sv[0]); computeAverageSat(pv, s, &as[0]); double tot = 0; for (int c = 0; c < nc; ++c) tot += pv[c];
    for (int p = 0; p < np; ++p) { double e = 0; for (int c = 0; c < nc; ++c) e += pv[c] * s[c * np + p]; sym_check_eq(sv[p], e, "saturated volume"); sym_check_eq(as[p], e / tot, "average saturation"); }
    sym_check(sv[np] == -7.0 && as[np] == -7.0, "nothing written past the phases");
    V sw(7, -7.0), sb, s2 = rvec("t", 2 * nc, 0, 1); toWaterSat(s2, sw); sym_check((int)sw.size() == nc, "one water saturation per cell"); for (int c = 0; c < nc; ++c) sym_check_eq(sw[c], s2[2 * c], "water saturation");
    toBothSat(sw, sb); sym_check((int)sb.size() == 2 * nc, "two saturations per cell"); for (int c = 0; c < nc; ++c) { sym_check_eq(sb[2 * c], sw[c], "first saturation"); sym_check_eq(sb[2 * c + 1], 1 - sw[c], "second saturation"); }
    V A = rvec("A", nc * np * np, -4, 4), z(nc * np, -7.0); computeSurfacevol(nc, np, &A[0], &s[0], &z[0]);
    for (int c = 0; c < nc; ++c) for (int r = 0; r < np; ++r) { double e = 0; for (int k = 0; k < np; ++k) e += A[c * np * np + r + k * np] * s[c * np + k]; sym_check_eq(z[c * np + r], e, "surface volume is matrix times saturation"); }
    // injected and produced volumes
    V src = rvec("src", nc, -4, 4); const double dt = sym_real("dt", 0, 4); V in(np, -7.0), out(np, -7.0), ein(np, 0.0), eo(np, 0.0), eb(np, 0.0);
    Opm::BlackoilState st; { G g(nc, 1, 0); st.init(*g.g, np); } st.saturation() = s; st.pressure() = rvec("p", nc, 0.125, 4); st.surfacevol() = rvec("z", nc * np, 0, 2);
    for (int c = 0; c < nc; ++c) {
        if (src[c] > 0) ein[0] += src[c] * dt;
        else { V m(np), n(np); double t = 0, u = 0; for (int p = 0; p < np; ++p) { m[p] = f.kr(c, p, s[c * np + p]) / f.mu[p]; t += m[p]; n[p] = f.kr(c, p, s[c * np + p]) / f.visc(c, p, st.pressure()[c], &st.surfacevol()[c * np]); u += n[p]; }
               for (int p = 0; p < np; ++p) { eo[p] -= src[c] * dt * m[p] / t; for (int q = 0; q < np; ++q) eb[q] -= src[c] * dt * n[p] / u * f.mat(c, q + np * p, st.pressure()[c]); } }
    }
    if (NP <= 2 || sym_choice("which", 2) == 0) {
    computeInjectedProduced(ip, s, src, dt, &in[0], &out[0]);
    for (int p = 0; p < np; ++p) { sym_check_eq(in[p], ein[p], "injected volume"); sym_check_eq(out[p], eo[p], "produced volume split by fractional flow"); } }
    in.assign(np, -7.0); out.assign(np, -7.0);
    computeInjectedProduced(bp, st, src, dt, &in[0], &out[0]);
    for (int p = 0; p < np; ++p) { sym_check_eq(in[p], ein[p], "black-oil injected volume"); sym_check_eq(out[p], eb[p], "black-oil produced surface volume"); }
}
#elif PART == 28
extern "C" void harness()
{
    const int nc = 3, np = NP; AnyFluid f(nc, np); AnyIncomp ip(f); AnyBlackoil bp(f);
    const int sel = sym_choice("cells", 5); const int pats[5][3] = { { 0, 1, 2 }, { 2, 0, 1 }, { 1, -1, -1 }, { 2, 0, -1 }, { 1, 1, 2 } };
    std::vector<int> cells; for (int i = 0; i < 3; ++i) if (pats[sel][i] >= 0) cells.push_back(pats[sel][i]);
    const int n = cells.size(); V s = rvec("s", n * np, 0, 1), p = rvec("p", n, 0.125, 4), z = rvec("z", n * np, 0, 2);
    V pm(1, -7.0), tm(9, -7.0), om, ff(20, -7.0), tm2; 
    computePhaseMobilities(ip, cells, s, pm); computeTotalMobility(ip, cells, s, tm); computeTotalMobilityOmega(ip, cells, s, tm2, om); computeFractionalFlow(ip, cells, s, ff);
    sym_check((int)pm.size() == n * np && (int)tm.size() == n && (int)om.size() == n && (int)tm2.size() == n && (int)ff.size() == n * np, "sizes");
    for (int i = 0; i < n; ++i) { double t = 0, w = 0, sum = 0; V m(np); for (int k = 0; k < np; ++k) { m[k] = f.kr(cells[i], k, s[i * np + k]) / f.mu[k]; t += m[k]; w += m[k] * f.rho[k]; sum += ff[i * np + k]; sym_check_eq(pm[i * np + k], m[k], "phase mobility"); }
        sym_check_eq(tm[i], t, "total mobility"); sym_check_eq(tm2[i], t, "total mobility with density"); sym_check_eq(om[i], w / t, "mobility-weighted density"); sym_check_eq(sum, 1.0, "fractional flows sum to one");
        for (int k = 0; k < np; ++k) sym_check_eq(ff[i * np + k], m[k] / t, "fractional flow"); }
    V qm(1, -7.0), qt(9, -7.0), qf(20, -7.0);
    computePhaseMobilities(bp, cells, p, z, s, qm); computeTotalMobility(bp, cells, p, z, s, qt); computeFractionalFlow(bp, cells, p, z, s, qf);
    sym_check((int)qm.size() == n * np && (int)qt.size() == n && (int)qf.size() == n * np, "black-oil sizes");
    for (int i = 0; i < n; ++i) { double t = 0, sum = 0; V m(np); for (int k = 0; k < np; ++k) { m[k] = f.kr(cells[i], k, s[i * np + k]) / f.visc(cells[i], k, p[i], &z[i * np]); t += m[k]; sum += qf[i * np + k]; sym_check_eq(qm[i * np + k], m[k], "black-oil phase mobility"); }
        sym_check_eq(qt[i], t, "black-oil total mobility"); sym_check_eq(sum, 1.0, "black-oil fractional flows sum to one");
        for (int k = 0; k < np; ++k) sym_check_eq(qf[i * np + k], m[k] / t, "black-oil fractional flow"); }
}
#elif PART == 29
// two wells; the first has two perforations, the second one or two
extern "C" void harness()
{
    const int nc = 3, np = NP, nw = 2; AnyFluid f(nc, np); AnyIncomp ip(f); AnyBlackoil bp(f);
    const int second = 1 + (PARTB != 2 ? sym_choice("second", 2) : 0); const int perfs[2] = { PARTB == 2 ? 1 : 2, second }; const int pc[4] = { 2, 0, 0, 1 };
    const int nperf = perfs[0] + perfs[1]; Wells* w = create_wells(np, nw, nperf); V cf = rvec("cf", nw * np, 0, 1); V wi(4, 1.0); int cc[4] = { 0 }, wo[4] = { 0 };
    for (int k = 0, i = 0; k < nw; ++k) for (int j = 0; j < perfs[k]; ++j, ++i) { cc[i] = pc[i]; wo[i] = k; }
    if (PARTB == 2 && sym_choice("same cell", 2)) cc[1] = cc[0];
    WellType ty[2]; bool ok = true;
    for (int k = 0; k < nw; ++k) { double t = 0; for (int p = 0; p + 1 < np; ++p) t += cf[k * np + p]; cf[k * np + np - 1] = 1 - t;
        ty[k] = sym_choice(k ? "type1" : "type0", 2) ? INJECTOR : PRODUCER; ok = ok && add_well(ty[k], 0.0, perfs[k], &cf[k * np], k ? cc + perfs[0] : cc, &wi[0], k ? "B" : "A", w); }
    sym_check(ok, "wells added");
    V q = rvec("q", nperf, -4, 4);
#if PARTB == 0   // transport sources
    G g(3, 1, 0); V src = rvec("src", nc, -4, 4), flux = rvec("flux", g.g->number_of_faces, -4, 4), ts(9, -7.0), e(nc); const double fr = sym_real("frac", 0, 1);
    const bool sides = sym_choice("sides", 2);   // open sides of the row, or its ends
    for (int i = 0; i < g.g->number_of_faces; ++i) { const int* fc = g.g->face_cells + 2 * i; if (fc[0] >= 0 && fc[1] >= 0) continue; const bool end = i < 4; if (end == sides || (sides && i % 3)) flux[i] = 0.0; }
    src[1] = sides ? 0.5 : -0.5;
    const bool wl = sym_choice("wells", 2); computeTransportSource(*g.g, src, flux, fr, wl ? w : 0, q, ts); sym_check((int)ts.size() == nc, "one transport source per cell");
    for (int c = 0; c < nc; ++c) e[c] = src[c] > 0 ? fr * src[c] : src[c];
    for (int i = 0; i < g.g->number_of_faces; ++i) { const int* fc = g.g->face_cells + 2 * i; if (fc[0] >= 0 && fc[1] >= 0) continue; const int c = fc[0] >= 0 ? fc[0] : fc[1]; const double in = fc[0] >= 0 ? -flux[i] : flux[i]; e[c] += in > 0 ? fr * in : in; }
    if (wl) for (int i = 0; i < nperf; ++i) e[cc[i]] += q[i] > 0 ? (ty[wo[i]] == INJECTOR ? q[i] * cf[wo[i] * np] : 0.0) : q[i];
    for (int c = 0; c < nc; ++c) sym_check_eq(ts[c], e[c], "transport source is the sum of sources, boundary flow and wells");
#elif PARTB == 1 // well reports and rates
    V p = rvec("p", nc, 0.125, 4), z = rvec("z", nc * np, 0, 2), s = rvec("s", nc * np, 0, 1), bhp = rvec("bhp", nw, 0, 4); const double t = sym_real("time", 0, 10), day = 86400.0, bar = 1e5;
    if (sym_choice("blackoil", 2) == 0) {
        WellReport r; r.push(ip, *w, s, t, bhp, q); r.push(ip, *w, s, t + 1, bhp, q); sym_check(r.data_.size() == 2 && r.data_[0].size() == 1 + 3 * nw, "report layout");
        sym_check_eq(r.data_[0][0], t / day, "time in days"); sym_check_eq(r.data_[1][0], (t + 1) / day, "time in days");
        for (int k = 0; k < nw; ++k) { double tot = 0, wat = 0; for (int i = 0; i < nperf; ++i) if (wo[i] == k) { const int c = cc[i]; tot += q[i]; double m = 0; for (int a = 0; a < np; ++a) m += f.kr(c, a, s[c * np + a]) / f.mu[a]; wat += q[i] * (q[i] > 0 ? cf[k * np] : f.kr(c, 0, s[c * np]) / f.mu[0] / m); }
            sym_check_eq(r.data_[0][1 + 3 * k], bhp[k] / bar, "bottom-hole pressure in bar"); sym_check_eq(r.data_[0][2 + 3 * k], tot * day, "total rate per day"); sym_check_eq(r.data_[0][3 + 3 * k] * tot, tot == 0 ? 0.0 : wat, "water fraction of the rate"); }
    } else {
        WellReport r; r.push(bp, *w, p, z, s, t, bhp, q); sym_check_eq(r.data_[0][0], t / day, "time in days");
        for (int k = 0; k < nw; ++k) { double tot = 0, wat = 0; for (int i = 0; i < nperf; ++i) if (wo[i] == k) { const int c = cc[i]; tot += q[i]; double m = 0; for (int a = 0; a < np; ++a) m += f.kr(c, a, s[c * np + a]) / f.visc(c, a, p[c], &z[c * np]); wat += q[i] * (q[i] > 0 ? cf[k * np] : f.kr(c, 0, s[c * np]) / f.visc(c, 0, p[c], &z[c * np]) / m); }
            sym_check_eq(r.data_[0][1 + 3 * k], bhp[k] / bar, "bottom-hole pressure in bar"); sym_check_eq(r.data_[0][2 + 3 * k], tot * day, "total rate per day"); sym_check_eq(r.data_[0][3 + 3 * k] * tot, tot == 0 ? 0.0 : wat, "water fraction of the rate"); }
    }
    V ff = rvec("ff", nc * np, 0, 1), pw(11, -7.0), fw; computePhaseFlowRatesPerWell(*w, q, ff, pw); computeFlowRatePerWell(*w, q, fw); computeFlowRatePerWell(*w, q, fw);
    sym_check((int)pw.size() == nw * np && (int)fw.size() == nw, "one entry per well");
    for (int k = 0; k < nw; ++k) { double tot = 0; V e(np, 0.0); for (int i = 0; i < nperf; ++i) if (wo[i] == k) { tot += q[i]; for (int a = 0; a < np; ++a) e[a] += q[i] * ff[cc[i] * np + a]; }
        sym_check_eq(fw[k], tot, "well rate is the sum over its perforations"); for (int a = 0; a < np; ++a) sym_check_eq(pw[k * np + a], e[a], "phase rate is the sum over perforations of rate times fractional flow"); }
    Watercut wc; wc.push(t, q[0], q[1]); wc.push(q[1], q[0], t); sym_check(wc.data_.size() == 6, "watercut entries"); sym_check_eq(wc.data_[0], t, "watercut"); sym_check_eq(wc.data_[1], q[0], "watercut"); sym_check_eq(wc.data_[2], q[1], "watercut"); sym_check_eq(wc.data_[5], t, "watercut");
#elif PARTB == 2 // sources from wells, surface transport sources
    V tgt = rvec("tgt", nw, -4, 4), d(np, 1.0), src(nc, 0.5), e(nc, 0.0); for (int k = 0; k < nw; ++k) { append_well_controls(RESERVOIR_RATE, tgt[k], &d[0], k, w); set_current_control(k, 0, w); }
    wellsToSrc(*w, nc, src); for (int i = 0; i < nw; ++i) e[cc[i]] += ty[i] == INJECTOR ? tgt[i] * cf[i * np] : tgt[i];
    for (int c = 0; c < nc; ++c) sym_check_eq(src[c], e[c], "source equals the rates of the wells in the cell");
    Opm::WellState ws; ws.perfRates() = q; ws.perfPress() = rvec("pp", nperf, 0.125, 4); V ts(9, -7.0), e2(nc, 0.0); computeTransportSource(bp, w, ws, ts); sym_check((int)ts.size() == nc, "one transport source per cell");
    for (int i = 0; i < nperf; ++i) e2[cc[i]] += q[i] > 0 ? (ty[wo[i]] == INJECTOR ? q[i] * cf[wo[i] * np] * f.mat(cc[i], 0, ws.perfPress()[i]) : 0.0) : q[i];
    for (int c = 0; c < nc; ++c) sym_check_eq(ts[c], e2[c], "black-oil transport source");
#endif
    destroy_wells(w);
}
#endif
