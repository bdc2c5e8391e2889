// C02/C03/C05 at the level of the public ifs_tpfa interface: arbitrary positive transmissibilities,
// boundary conditions, wells, sources, gravity terms; any exact solution of the assembled system.
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/wells.h>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#ifndef PROP
#define PROP 2
#endif
#ifndef MODE
#define MODE 0   // 0 incompressible, 1 compressible rock (direct), 2 compressible rock (increment)
#endif
#ifndef TOPO
#define TOPO 0
#endif
extern "C" void harness()
{
#if TOPO == 0
    struct UnstructuredGrid* g = create_grid_cart2d(2, 1, 1.0, 1.0);
#elif TOPO == 1
    struct UnstructuredGrid* g = create_grid_cart2d(2, 2, 1.0, 1.0);
#elif TOPO == 2
    struct UnstructuredGrid* g = create_grid_cart3d(1, 1, 2);
#else
    struct UnstructuredGrid* g = create_grid_cart3d(3, 1, 1);
#endif
    const int nc = g->number_of_cells, nf = g->number_of_faces, nh = g->cell_facepos[nc];
    std::vector<double> T(nf), gp(nh), src(nc), mob(nc);
    for (int f = 0; f < nf; ++f) { T[f] = rvar("T", f, 0, 10); sym_assume_lt(0.0, T[f]); }
    for (int k = 0; k < nh; ++k) gp[k] = rvar("gp", k, -10, 10);
    for (int c = 0; c < nc; ++c) { src[c] = rvar("src", c, -10, 10); mob[c] = rvar("mob", c, 0, 10); sym_assume_lt(0.0, mob[c]); }
    // boundary conditions: one boundary face of the first cell and one of the last cell
    int bf0 = -1, bf1 = -1;
    for (int f = 0; f < nf; ++f) {
        int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a >= 0 && b >= 0) continue;
        int c = a >= 0 ? a : b;
        if (c == 0 && bf0 < 0) bf0 = f;
        if (c == nc - 1) bf1 = f;
    }
    const int b0 = sym_choice("bc0", 3), b1 = sym_choice("bc1", 3);   // 0 none, 1 pressure, 2 flux
    struct FlowBoundaryConditions* bc = 0;
    double v0 = 0, v1 = 0;
    if (b0 || b1) {
        bc = flow_conditions_construct(0);
        v0 = sym_real("bv0", -10, 10); v1 = sym_real("bv1", -10, 10);
        if (b0) flow_conditions_append(b0 == 1 ? BC_PRESSURE : BC_FLUX_TOTVOL, bf0, v0, bc);
        if (b1) flow_conditions_append(b1 == 1 ? BC_PRESSURE : BC_FLUX_TOTVOL, bf1, v1, bc);
    }
    // wells
    enum { NOWELL, ONE_BHP, ONE_RATE, SHUT, BHP_RATE, NWCFG };
    const int wcfg = sym_choice("wells", NWCFG);
    struct Wells* W = 0; std::vector<double> wdp; double tgt[2] = { 0, 0 };
    if (wcfg != NOWELL) {
        const int nw = wcfg == BHP_RATE ? 2 : 1;
        W = create_wells(2, nw, 2 * nw);
        const double cf[2] = { 1.0, 0.0 }, d[2] = { 1.0, 1.0 };
        int cells0[2] = { 0, nc - 1 }, cells1[1] = { nc - 1 }; double wi0[2], wi1[1];
        for (int i = 0; i < 2; ++i) { wi0[i] = rvar("WI", i, 0, 10); sym_assume_lt(0.0, wi0[i]); }
        wi1[0] = rvar("WI", 2, 0, 10); sym_assume_lt(0.0, wi1[0]);
        add_well(INJECTOR, 0.0, 2, cf, cells0, wi0, "A", W);
        if (nw == 2) add_well(PRODUCER, 0.0, 1, NULL, cells1, wi1, "B", W);
        for (int w = 0; w < nw; ++w) {
            tgt[w] = rvar("target", w, -10, 10);
            const bool rate = (w == 0) ? wcfg == ONE_RATE : true;
            const double dummy = rvar("dummy", w, -10, 10);
            append_well_controls(rate ? BHP : RESERVOIR_RATE, dummy, d, w, W);      // an inactive control
            append_well_controls(rate ? RESERVOIR_RATE : BHP, tgt[w], d, w, W);
            set_current_control(w, wcfg == SHUT ? -1 : 1, W);
        }
        wdp.resize(W->well_connpos[nw]);
        for (size_t i = 0; i < wdp.size(); ++i) wdp[i] = rvar("wdp", i, -10, 10);
    }
    const int nw = W ? W->number_of_wells : 0, np = W ? W->well_connpos[nw] : 0;
    struct ifs_tpfa_forces F = { &src[0], bc, W, &mob[0], W ? &wdp[0] : NULL };
    struct ifs_tpfa_data* h = ifs_tpfa_construct(g, W);
    std::vector<double> acc(nc, 0.0);   // accumulation (rate of pore volume increase)
    std::vector<double> wp(nw + 1, 0.0), wf(np + 1, 0.0), p(nc), q(nf);
#if MODE == 0
    // all rates prescribed: solvable only if they balance
    if (b0 != 1 && b1 != 1 && wcfg != ONE_BHP && wcfg != BHP_RATE) {
        double tot = 0;
        for (int c = 0; c < nc; ++c) tot += src[c];
        if (b0 == 2) tot += v0; if (b1 == 2) tot += v1; if (wcfg == ONE_RATE) tot += tgt[0];
        sym_assume_eq(tot, 0.0);
    }
    sym_check(ifs_tpfa_assemble(g, &F, &T[0], &gp[0], h) != 0, "assembly accepts supported controls");
    sym_solve(h->A->m, h->A->ia, h->A->ja, h->A->sa, h->b, h->x);
#else
    std::vector<double> pv(nc), cr(nc), p0(nc + nw), pv0(nc); const double dt = sym_real("dt", 0, 10); sym_assume_lt(0.0, dt);
    for (int c = 0; c < nc; ++c) { pv[c] = rvar("pv", c, 0, 10); cr[c] = rvar("cr", c, 0, 10); sym_assume_lt(0.0, pv[c]); sym_assume_lt(0.0, cr[c]); pv0[c] = rvar("pvi", c, 0, 10); }
    for (int c = 0; c < nc + nw; ++c) p0[c] = rvar("p0_", c, -10, 10);
#if MODE == 1
    sym_check(ifs_tpfa_assemble_comprock(g, &F, &T[0], &gp[0], &pv[0], &cr[0], dt, &p0[0], h) != 0, "assembly accepts supported controls");
    sym_solve(h->A->m, h->A->ia, h->A->ja, h->A->sa, h->b, h->x);
    for (int c = 0; c < nc; ++c) acc[c] = pv[c] * cr[c] * (h->x[c] - p0[c]) / dt;
#else
    // documented Newton form: x is an increment from iterate p0 (pore volumes pv at the iterate, pv0 at the old state)
    const bool sing = b0 != 1 && b1 != 1 && wcfg != ONE_BHP && wcfg != BHP_RATE;
    (void) sing;
    sym_check(ifs_tpfa_assemble_comprock_increment(g, &F, &T[0], &gp[0], &pv[0], &cr[0], dt, &p0[0], &pv0[0], h) != 0, "assembly accepts supported controls");
    std::vector<double> dx(nc + nw);
    sym_solve(h->A->m, h->A->ia, h->A->ja, h->A->sa, h->b, &dx[0]);
    for (int c = 0; c < nc; ++c) acc[c] = (pv[c] + pv[c] * cr[c] * dx[c] - pv0[c]) / dt;
    for (int c = 0; c < nc + nw; ++c) h->x[c] = p0[c] + dx[c];
#endif
#endif
    struct ifs_tpfa_solution S = { &p[0], &q[0], nw ? &wp[0] : NULL, nw ? &wf[0] : NULL };
    const double sentinel = sym_real("oldbhp", -10, 10); for (int w = 0; w < nw; ++w) wp[w] = sentinel;
    std::vector<double> x(h->x, h->x + nc + nw);
    ifs_tpfa_press_flux(g, &F, &T[0], h, &S);
#if PROP == 2 || PROP == 5
    for (int c = 0; c < nc; ++c) sym_check_eq(p[c], x[c], "reported cell pressure is the solution");
    for (int f = 0; f < nf; ++f) {
        int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a < 0 || b < 0) continue;
        double gt = 0;
        for (int k = g->cell_facepos[a]; k < g->cell_facepos[a + 1]; ++k) if (g->cell_faces[k] == f) gt += gp[k];
        for (int k = g->cell_facepos[b]; k < g->cell_facepos[b + 1]; ++k) if (g->cell_faces[k] == f) gt -= gp[k];
        sym_check_eq(q[f], T[f] * (p[a] - p[b] + gt), "internal face flux is transmissibility times potential drop");
    }
    for (int c = 0; c < nc; ++c) {
        double net = acc[c] - src[c];
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; if (g->face_cells[2 * f] == c) net += q[f]; else net -= q[f]; }
        for (int i = 0; i < np; ++i) if (W->well_cells[i] == c) net -= wf[i];
        sym_check_eq(net, 0.0, "cell volume balance holds");
    }
#endif
#if PROP == 3 || PROP == 5
    for (int f = 0; f < nf; ++f) {
        int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a >= 0 && b >= 0) continue;
        const int c = a >= 0 ? a : b; const double out = a >= 0 ? q[f] : -q[f];
        const int ty = f == bf0 ? b0 : f == bf1 ? b1 : 0; const double v = f == bf0 ? v0 : v1;
        if (ty == 0) sym_check_eq(out, 0.0, "no flow through a boundary face without condition");
        if (ty == 1) sym_check_eq(out, T[f] * (p[c] - v), "pressure boundary face flux");
        if (ty == 2) sym_check_eq(out, -v, "prescribed boundary flux is honoured");
    }
    for (int w = 0; w < nw; ++w) {
        double tot = 0;
        for (int i = W->well_connpos[w]; i < W->well_connpos[w + 1]; ++i) {
            const int c = W->well_cells[i]; tot += wf[i];
            if (wcfg != SHUT) sym_check_eq(wf[i], W->WI[i] * mob[c] * (wp[w] + wdp[i] - p[c]), "perforation rate is well index x mobility x drawdown");
            else sym_check_eq(wf[i], 0.0, "stopped well has no perforation flow");
        }
        const bool rate = (w == 0) ? wcfg == ONE_RATE : true;
        if (wcfg == SHUT) { sym_check_eq(wp[w], sentinel, "stopped well keeps its bottom-hole pressure"); }
        else if (rate) sym_check_eq(tot, tgt[w], "rate controlled well meets its target");
        else sym_check_eq(wp[w], tgt[w], "pressure controlled well meets its target");
    }
#endif
    ifs_tpfa_destroy(h); if (W) destroy_wells(W); if (bc) flow_conditions_destroy(bc); destroy_grid(g);
}
