// C10 hybrid mimetic system: assembled system solved exactly, then fluxes and pressures are checked against the discrete equations.
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/linalg/sparse_sys.h>
#include <cstring>
typedef std::vector<double> V;
// three cells with 4, 5 and 4 faces; face 1 joins cells 0-1, face 4 cells 1-2
static int FP[] = { 0, 4, 9, 13 }, CF[] = { 0, 1, 2, 3, 1, 4, 5, 6, 7, 4, 8, 9, 10 };
static int FC[] = { -1, 0, 0, 1, -1, 0, 0, -1, 2, 1, 1, -1, -1, 1, 1, -1, 2, -1, -1, 2, 2, -1 };
enum { NC = 3, NF = 11, NH = 13 };
static const double A4[] = { 4, 1, -1, 0, 1, 3, 0, .5, -1, 0, 2, .5, 0, .5, .5, 5 }; // sums to 16
static const double D4[] = { 1, 0, 0, 0, 0, 4, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2 };      // sums to 8
static const double A5[] = { 2, .5, 0, 0, -1, .5, 3, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 4, 0, -1, 0, 0, 0, 5 }; // sums to 16
extern "C" void harness()
{
    sym_native_tol(1e-7, 1e-7);
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.dimensions = 2; g.number_of_cells = NC; g.number_of_faces = NF; g.cell_facepos = FP; g.cell_faces = CF; g.face_cells = FC;
    const int scal = sym_choice("innerproduct", 2); V Binv;
    const double* b0 = scal ? D4 : A4; const double* b2 = scal ? A4 : D4; const double sum[] = { scal ? 8. : 16., 16., scal ? 16. : 8. };
    Binv.insert(Binv.end(), b0, b0 + 16); Binv.insert(Binv.end(), A5, A5 + 25); Binv.insert(Binv.end(), b2, b2 + 16);
    // wells: completions (cell, index); the indices in a cell add up to the cell's sum or three times that, keeping quotients exact
    struct { int n, pos[3], cells[4]; } WS[] = { { 0, { 0 }, { 0 } }, { 1, { 0, 2 }, { 0, 2 } }, { 1, { 0, 1 }, { 1 } }, { 2, { 0, 1, 3 }, { 1, 1, 2 } }, { 2, { 0, 2, 4 }, { 0, 1, 2, 0 } } };
    const int ws = WELLS ? 1 + sym_choice("wells", 4) : 0; int nw = WS[ws].n; const int np = nw ? WS[ws].pos[nw] : 0;
    well_t W = { nw, WS[ws].pos, WS[ws].cells }; V WI(4), wdp = rvec("wdp", np ? np : 1); int per[3] = { 0, 0, 0 }; for (int i = 0; i < np; ++i) ++per[W.well_cells[i]];
    { int seen[3] = { 0, 0, 0 }; for (int i = 0; i < np; ++i) { const int c = W.well_cells[i]; WI[i] = sum[c] * (per[c] == 1 ? 1 : seen[c]++ ? 0.25 : 0.75); } }
    enum well_type wt[2] = { INJECTOR, PRODUCER }; enum well_control wc[2] = { BHP, BHP }; V tgt(2); V zf(6, 1.0);
    for (int w = 0; w < nw; ++w) { wc[w] = sym_choice(nme("control", w).c_str(), 2) ? RATE : BHP; tgt[w] = rvar("target", w); }
    well_control_t ctrl = { wt, wc, &tgt[0], &zf[0] };
    // boundary conditions
    const int bk = sym_choice("bc", 5); FlowBoundaryConditions* bc = bk == 4 && sym_choice("nobc", 2) ? 0 : flow_conditions_construct(0); int kind[NF]; V val(NF, 0.0); for (int f = 0; f < NF; ++f) kind[f] = 0;
    const double v0 = rvar("bcv", 0), v1 = rvar("bcv", 1), v2 = rvar("bcv", 2); int set[2] = { 5, 9 };
    if (bc && bk <= 2) { // pressures (and fluxes)
        flow_conditions_append(BC_PRESSURE, 0, v0, bc); kind[0] = 1; val[0] = v0;
        if (bk >= 1) { flow_conditions_append_multi(BC_FLUX_TOTVOL, 2, set, v1, bc); for (int i = 0; i < 2; ++i) { kind[set[i]] = 2; val[set[i]] = v1; } }
        if (bk == 2) { flow_conditions_append(BC_PRESSURE, 2, v2, bc); kind[2] = 1; val[2] = v2; flow_conditions_append(BC_NOFLOW, 7, 1.0, bc); }
    } else if (bc && bk == 3) { flow_conditions_append(BC_FLUX_TOTVOL, 6, v0, bc); kind[6] = 2; val[6] = v0; flow_conditions_append(BC_FLUX_TOTVOL, 8, v1, bc); kind[8] = 2; val[8] = v1; flow_conditions_append(BC_NOFLOW, 3, v2, bc); }
    V src = rvec("src", NC), gp = rvec("gp", NH), P(NC, 0.0), BIV(NH, 0.0);
    int npp = 0; for (int f = 0; f < NF; ++f) npp += kind[f] == 1; for (int w = 0; w < nw; ++w) npp += wc[w] == BHP;
    if (COMPR) { const int k = sym_choice("compressible", 2); if (k) { P[0] = -sum[0]; P[1] = -3 * sum[1]; P[2] = 0; for (int i = 0; i < 4; ++i) BIV[i] = (i % 2 ? 0.5 : -0.5); for (int i = 4; i < 9; ++i) BIV[i] = i == 8 ? -1 : 0.25; npp += 1; } }
    V gpin = gp;
    if (npp == 0) { // closed: the sources must balance
        double tot = 0; for (int c = 0; c < NC; ++c) tot += src[c]; for (int w = 0; w < nw; ++w) tot += tgt[w]; for (int f = 0; f < NF; ++f) tot -= val[f]; src[0] -= tot;
    }
    fsh_data* h = COMPR ? cfsh_construct(&g, 0) : ifsh_construct(&g, nw ? &W : 0); sym_check(h != 0, "construction succeeds");
    const int rounds = 1 + ROUNDS;
    for (int rd = 0; rd < rounds; ++rd) {
        csrmatrix_zero(h->A); for (size_t i = 0; i < h->A->m; ++i) h->b[i] = 0;
        if (COMPR) cfsh_assemble(bc, &src[0], &Binv[0], &BIV[0], &P[0], &gp[0], 0, 0, 0, 0, h); else ifsh_assemble(bc, &src[0], &Binv[0], &gp[0], nw ? &ctrl : 0, &WI[0], &wdp[0], h);
    }
    sym_solve(h->A->m, h->A->ia, h->A->ja, h->A->sa, h->b, h->x);
    V cp(NC), ff(NF), wp(2), wf(4); V x(h->x, h->x + h->A->m);
    fsh_press_flux(&g, &Binv[0], &gp[0], h, &cp[0], &ff[0], &wp[0], &wf[0]);
    size_t p2 = 0;
    for (int c = 0; c < NC; ++c) {
        const int n = FP[c + 1] - FP[c]; double net = 0, bal = 0;
        for (int i = 0; i < n; ++i) {
            const int f = CF[FP[c] + i]; const double s = FC[2 * f] == c ? 1 : -1; double v = 0;
            for (int j = 0; j < n; ++j) v += Binv[p2 + i + n * j] * (gp[FP[c] + j] + cp[c] - x[CF[FP[c] + j]]);
            sym_check_eq(s * ff[f], v, "the flux of each face is the flux of the adjoining cell's inner product");
            net += s * ff[f]; bal += BIV[FP[c] + i] * (gp[FP[c] + i] + cp[c] - x[f]);
        }
        double want = src[c] + P[c] * cp[c] + bal; for (int i = 0; i < np; ++i) if (W.well_cells[i] == c) want += wf[i];
        sym_check_eq(net, want, "cell volume balance"); p2 += n * n;
    }
    for (int f = 0; f < NF; ++f) if (FC[2 * f] < 0 || FC[2 * f + 1] < 0) { const double s = FC[2 * f] >= 0 ? 1 : -1;
        if (kind[f] == 1) sym_check_eq(x[f], val[f], "prescribed boundary pressure"); else sym_check_eq(s * ff[f], val[f], "prescribed boundary flux"); }
    for (int w = 0; w < nw; ++w) {
        double tot = 0; for (int i = W.well_connpos[w]; i < W.well_connpos[w + 1]; ++i) { tot += wf[i]; sym_check_eq(wf[i], WI[i] * (wp[w] - cp[W.well_cells[i]] - wdp[i]), "perforation inflow"); }
        if (wc[w] == BHP) sym_check_eq(wp[w], tgt[w], "prescribed bottom-hole pressure"); else sym_check_eq(tot, tgt[w], "prescribed well rate");
    }
    sym_reach(npp ? "solved" : "solved closed"); if (bc) flow_conditions_destroy(bc); fsh_destroy(h);
}
