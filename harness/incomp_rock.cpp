// C05 through IncompTpfa with pressure-dependent pore volume: whenever solve() returns normally, the reported
// pressures and fluxes satisfy the nonlinear balance within the residual tolerance (or the last increment was
// within the change tolerance).
#include "press.hpp"
#include <iostream>
#include <sstream>
#include <map>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#define private public
#include <opm/core/props/rock/RockCompressibility.hpp>
#undef private
#include <opm/core/grid/cart_grid.h>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
extern "C" void harness()
{
    struct UnstructuredGrid* g = create_grid_cart3d(2, 1, 1);
    const int nc = g->number_of_cells, nf = g->number_of_faces;
    StubIncomp props(nc, 3);
    StubLin lin;
    #ifdef WELL
    const int wk = WELL;
#else
    const int wk = sym_choice("well", 3);          // none, bhp, rate
#endif
    struct Wells* W = 0; const double target = sym_real("target", -10, 10); double wi = 1.5;
    if (wk) {
        W = create_wells(2, 1, 1); int cell = 1; double cf[2] = { 1, 0 }, d[2] = { 1, 1 };
        add_well(INJECTOR, 0.0, 1, cf, &cell, &wi, "A", W);
        append_well_controls(wk == 1 ? BHP : RESERVOIR_RATE, target, d, 0, W); set_current_control(0, 0, W);
    }
    Opm::parameter::ParameterGroup param;
    Opm::RockCompressibility rock(param);
    const double cr = 0.5, pref = 1.0;
    rock.pref_ = pref; rock.rock_comp_ = cr;
    std::vector<double> src(nc);
    for (int c = 0; c < nc; ++c) src[c] = rvar("src", c, -10, 10);
    const double dt = 0.5, tol = sym_real("tol", 0.0009765625, 1);
    Opm::TwophaseState st; st.init(*g, 2); Opm::WellState ws;
    std::vector<double> p0(nc);
    for (int c = 0; c < nc; ++c) { double s = 0.25 + 0.25 * c; st.saturation()[2 * c] = s; st.saturation()[2 * c + 1] = 1.0 - s; p0[c] = st.pressure()[c] = rvar("p", c, -8, 8); }
    ws.init(W, st);
    if (W) ws.bhp()[0] = sym_real("bhp", -8, 8);
    const int its = 1;      // one Newton step
    Opm::IncompTpfa solver(*g, props, &rock, lin, tol, 0.0, its, NULL, W, src, NULL);
    try { solver.solve(dt, st, ws); } catch (const std::exception&) { sym_reach("not converged"); return; }
    sym_reach("converged");
    // change tolerance is zero: a zero increment means the residual system was satisfied exactly before the step
    const std::vector<double>& p = st.pressure(); const std::vector<double>& q = st.faceflux();
    for (int c = 0; c < nc; ++c) {
        const double x = cr * (p[c] - pref), x0 = cr * (p0[c] - pref);
        double net = 0.25 * (x + x * x / 2 - x0 - x0 * x0 / 2) / dt - src[c];
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; if (g->face_cells[2 * f] == c) net += q[f]; else net -= q[f]; }
        if (W && c == 1) net -= ws.perfRates()[0];
        const double bound = (wk == 1 && c == 1) ? 2 * tol : tol;   // a pressure-controlled well row carries its own residual
        sym_check_le(net, bound, "nonlinear balance within tolerance at exit"); sym_check_le(-net, bound, "nonlinear balance within tolerance at exit");
    }
    double mob[2]; for (int c = 0; c < nc; ++c) mob[c] = st.saturation()[2 * c] / props.mu[0] + st.saturation()[2 * c + 1] / props.mu[1];
    for (int f = 0; f < nf; ++f) {
        const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a >= 0 && b >= 0) sym_check_eq(q[f] * (mob[a] + mob[b]), 2 * mob[a] * mob[b] * (p[a] - p[b]), "flux matches reported pressures"); else sym_check_eq(q[f], 0.0, "closed boundary");
    }
    if (wk) sym_check_eq(ws.perfRates()[0], wi * mob[1] * (ws.bhp()[0] - p[1]), "perforation rate matches reported pressures");
    if (wk == 1) { const double d = wi * mob[1] * (ws.bhp()[0] - target); sym_check_le(d, tol, "bhp target within tolerance"); sym_check_le(-d, tol, "bhp target within tolerance"); }
    if (wk == 2) { const double d = ws.perfRates()[0] - target; sym_check_le(d, tol, "rate target within tolerance"); sym_check_le(-d, tol, "rate target within tolerance"); }
    if (W) destroy_wells(W); destroy_grid(g);
}
