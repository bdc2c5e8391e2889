// C02/C03/C04 through the class IncompTpfa: real property evaluation, transmissibilities, gravity heads.
#include "press.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#ifndef PROP
#define PROP 2
#endif
#ifndef HIST
#define HIST 0
#endif
#ifndef DIM
#define DIM 3
#endif
extern "C" void harness()
{
#if DIM == 3
    struct UnstructuredGrid* g = create_grid_cart3d(1, 1, 2);
#else
    struct UnstructuredGrid* g = create_grid_cart2d(1, 2, 1.0, 1.0);
#endif
    const int nc = g->number_of_cells, nf = g->number_of_faces;
    StubIncomp props(nc, DIM); props.symbolicFluid();
#if !HIST
#if PROP == 2
    props.symbolicRock();
#endif
#endif
    StubLin lin, lin2; lin2.same = &lin;
    const int useg = sym_choice("gravity", 2);
    double grav[3] = { 0, 0, 0 }; if (useg) grav[DIM - 1] = sym_real("g", -10, 10);
    std::vector<double> src(nc);
    for (int c = 0; c < nc; ++c) src[c] = rvar("src", c, -10, 10);
    const int wk = sym_choice("well", 3);          // none, bhp, rate
    struct Wells* W = 0; double target = sym_real("target", -10, 10), dref = sym_real("dref", -4, 4); double wi[2] = { 0, 0 };
    if (wk) {
        W = create_wells(2, 1, 2); int cells[2] = { 1, 0 }; wi[0] = sym_real("WI0", 0.125, 8); wi[1] = sym_real("WI1", 0.125, 8); double cf[2] = { 1, 0 }, d[2] = { 1, 1 };
        add_well(INJECTOR, dref, 2, cf, cells, wi, "A", W);
        append_well_controls(wk == 1 ? BHP : RESERVOIR_RATE, target, d, 0, W); set_current_control(0, 0, W);
    }
    struct FlowBoundaryConditions* bc = 0; double pb = sym_real("pb", -10, 10); int bf = -1;
    if (sym_choice("bc", 2)) {
        for (int f = 0; f < nf; ++f) if (g->face_cells[2 * f] < 0) { bf = f; break; }
        bc = flow_conditions_construct(0); flow_conditions_append(BC_PRESSURE, bf, pb, bc);
    }
    Opm::TwophaseState st; st.init(*g, 2); Opm::WellState ws;
    for (int c = 0; c < nc; ++c) { double s = rvar("s", c, 0.125, 0.875); st.saturation()[2 * c] = s; st.saturation()[2 * c + 1] = 1.0 - s; }
    ws.init(W, st);
    if (!bc && wk != 1) { double t = wk == 2 ? target : 0.0; for (int c = 0; c < nc; ++c) t += src[c]; sym_assume_eq(t, 0.0); }
    const double* gp = useg ? grav : NULL;
    Opm::IncompTpfa solver(*g, props, lin, gp, W, src, bc);
#if HIST
    // earlier solve with arbitrary other saturations
    {
        Opm::TwophaseState so; so.init(*g, 2); Opm::WellState wo; wo.init(W, so);
        for (int c = 0; c < nc; ++c) { double s = rvar("sold", c, 0.125, 0.875); so.saturation()[2 * c] = s; so.saturation()[2 * c + 1] = 1.0 - s; }
        // any intermediate result will do: the solution of the earlier system is not constrained
        solver.solve(1.0, so, wo);
        std::vector<double> dummy;
    }
    Opm::TwophaseState st2(st); Opm::WellState ws2(ws);
    solver.solve(1.0, st, ws);
    Opm::IncompTpfa fresh(*g, props, lin2, gp, W, src, bc);
    fresh.solve(1.0, st2, ws2);
    for (int c = 0; c < nc; ++c) sym_check_eq(st.pressure()[c], st2.pressure()[c], "pressure equals that of a fresh solver");
    for (int f = 0; f < nf; ++f) sym_check_eq(st.faceflux()[f], st2.faceflux()[f], "face flux equals that of a fresh solver");
    if (W) for (int i = 0; i < 2; ++i) sym_check_eq(ws.perfRates()[i], ws2.perfRates()[i], "perforation rate equals that of a fresh solver");
    if (W) sym_check_eq(ws.bhp()[0], ws2.bhp()[0], "bottom-hole pressure equals that of a fresh solver");
#else
    solver.solve(1.0, st, ws);
    const std::vector<double>& p = st.pressure(); const std::vector<double>& q = st.faceflux();
    // independent formulas
    std::vector<double> mob(nc), dens(nc), sdens(nc);
    for (int c = 0; c < nc; ++c) {
        const double a = st.saturation()[2 * c] / props.mu[0], b = st.saturation()[2 * c + 1] / props.mu[1];
        mob[c] = a + b; dens[c] = (a * props.rho[0] + b * props.rho[1]) / mob[c];
        sdens[c] = st.saturation()[2 * c] * props.rho[0] + st.saturation()[2 * c + 1] * props.rho[1];
    }
#if PROP == 2
    for (int f = 0; f < nf; ++f) {
        const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a >= 0 && b >= 0) {
            // unit cells stacked along the last axis: one-sided transmissibility 2 K
            const int o = DIM * DIM - 1;
            const double ta = 2 * props.K[a * DIM * DIM + o] * mob[a], tb = 2 * props.K[b * DIM * DIM + o] * mob[b];
            const double head = dens[a] * grav[DIM - 1] * 0.5 + dens[b] * grav[DIM - 1] * 0.5;
            sym_check_eq(q[f] * (ta + tb), ta * tb * (p[a] - p[b] + head), "internal flux is transmissibility times potential drop (gravity included)");
        } else if (f != bf) sym_check_eq(q[f], 0.0, "no flow through closed boundary");
    }
    for (int c = 0; c < nc; ++c) {
        double net = -src[c];
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; if (g->face_cells[2 * f] == c) net += q[f]; else net -= q[f]; }
        if (W) net -= ws.perfRates()[c == 1 ? 0 : 1];
        sym_check_eq(net, 0.0, "cell volume balance holds");
    }
#else
    if (W) {
        for (int i = 0; i < 2; ++i) {
            const int c = i == 0 ? 1 : 0; const double depth = c + 0.5;
            sym_check_eq(ws.perfRates()[i], wi[i] * mob[c] * (ws.bhp()[0] + sdens[c] * (depth - dref) * grav[DIM - 1] - p[c]), "perforation rate is well index x mobility x drawdown with gravity head");
        }
        if (wk == 1) sym_check_eq(ws.bhp()[0], target, "pressure controlled well meets its target");
        else sym_check_eq(ws.perfRates()[0] + ws.perfRates()[1], target, "rate controlled well meets its target");
    }
#endif
#endif
    if (W) destroy_wells(W); if (bc) flow_conditions_destroy(bc); destroy_grid(g);
}
