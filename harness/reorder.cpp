// C11: transport ordering for every combination of face flow directions on a given cell graph
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/transport/reorder/reordersequence.h>
#include <opm/core/transport/reorder/ReorderSolverInterface.hpp>
#include <cstring>
typedef std::vector<int> I; typedef std::vector<double> V;
struct Rec : public Opm::ReorderSolverInterface {
    std::vector<I> calls;
    void go(const UnstructuredGrid& g, const double* f) { calls.clear(); reorderAndTransport(g, f); }
    I seq() const { return sequence(); } I comps() const { return components(); }
private:
    void solveSingleCell(const int c) { calls.push_back(I(1, c)); }
    void solveMultiCell(const int n, const int* c) { calls.push_back(I(c, c + n)); }
};
// cell pairs joined by one face each; -1 is outside
#if GRAPH == 0      // every directed graph on two cells, and a boundary face on either side
static const int NC = 2, FC[][2] = { { 0, 1 }, { 1, 0 }, { -1, 0 }, { 1, -1 } };
#elif GRAPH == 1    // every directed graph on three cells
static const int NC = 3, FC[][2] = { { 0, 1 }, { 2, 1 }, { 0, 2 }, { 1, 0 }, { 1, 2 }, { 2, 0 } };
#elif GRAPH == 2    // four cells, every pair joined, every orientation of the flow (no opposite flows between a pair)
static const int NC = 4, FC[][2] = { { 0, 1 }, { 2, 0 }, { 0, 3 }, { 1, 2 }, { 3, 1 }, { 2, 3 } };
#elif GRAPH == 3    // ring of four with doubled faces on two sides
static const int NC = 4, FC[][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 1, 0 }, { 2, 0 }
#ifdef FULL
, { 3, 2 }
#endif
};
#elif GRAPH == 4    // five cells: two triangles sharing a cell, and (FULL) a sixth cell
static const int NC =
#ifdef FULL
6
#else
5
#endif
, FC[][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 2, 3 }, { 3, 4 }, { 4, 2 }
#ifdef FULL
, { 5, 4 }
#endif
};
#else               // five cells, every pair joined
static const int NC = 5, FC[][2] = { { 0, 1 }, { 2, 0 }, { 0, 3 }, { 1, 2 }, { 3, 1 }, { 2, 3 }, { 4, 0 }, { 1, 4 }, { 4, 2 }, { 3, 4 } };
#endif
static const int NF = sizeof FC / sizeof FC[0];
extern "C" void harness()
{
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.number_of_cells = NC; g.number_of_faces = NF; g.dimensions = 2;
    I fc(2 * NF), pos(1, 0), cf; for (int f = 0; f < NF; ++f) { fc[2 * f] = FC[f][0]; fc[2 * f + 1] = FC[f][1]; }
    for (int c = 0; c < NC; ++c) { for (int f = 0; f < NF; ++f) if (FC[f][0] == c || FC[f][1] == c) cf.push_back(f); pos.push_back(cf.size()); }
    g.face_cells = &fc[0]; g.cell_facepos = &pos[0]; g.cell_faces = &cf[0];
    V flux = rvec("v", NF, -2, 2);
    I seq(NC, -7), comp(NC + 1, -7), ia(NC + 1, -7), ja(NF, -7), seq2(NC, -7), comp2(NC + 1, -7); int nc = -1, nc2 = -1;
    compute_sequence(&g, &flux[0], &seq[0], &comp[0], &nc);
    compute_sequence_graph(&g, &flux[0], &seq2[0], &comp2[0], &nc2, &ia[0], &ja[0]);
    sym_check(nc == nc2 && seq == seq2, "both entry points give the same order"); sym_check(nc >= 1 && nc <= NC && comp[0] == 0 && comp[nc] == NC, "components cover all cells"); if (nc < 1 || nc > NC) return;
    I at(NC, -1); bool ok = true; for (int k = 0; k < nc; ++k) { ok = ok && comp[k + 1] > comp[k] && comp[k + 1] <= NC && comp[k] == comp2[k]; if (!ok) break; for (int p = comp[k]; p < comp[k + 1]; ++p) { if (seq[p] < 0 || seq[p] >= NC || at[seq[p]] >= 0) { ok = false; continue; } at[seq[p]] = k; } }
    sym_check(ok, "the sequence lists every cell once, in consecutive components"); if (!ok) return;
    // reach[i] : cells from which flow can reach i
    std::vector<unsigned> up(NC), reach(NC); for (int f = 0; f < NF; ++f) { const int a = FC[f][0], b = FC[f][1]; if (a < 0 || b < 0) continue; if (flux[f] > 0) up[b] |= 1u << a; if (flux[f] < 0) up[a] |= 1u << b; }
    for (int c = 0; c < NC; ++c) reach[c] = up[c] | 1u << c;
    for (int k = 0; k < NC; ++k) for (int c = 0; c < NC; ++c) if (reach[c] >> k & 1) reach[c] |= reach[k];
    for (int f = 0; f < NF; ++f) { const int a = FC[f][0], b = FC[f][1]; if (a < 0 || b < 0) continue; if (at[a] > at[b]) sym_check_le(flux[f], 0.0, "no flow enters a cell from a later component"); if (at[b] > at[a]) sym_check_le(0.0, flux[f], "no flow enters a cell from a later component"); }
    bool scc = true, gr = ia[0] == 0; for (int a = 0; a < NC; ++a) for (int b = 0; b < NC; ++b) scc = scc && (at[a] == at[b]) == ((reach[a] >> b & 1) && (reach[b] >> a & 1));
    sym_check(scc, "components are exactly the strongly connected cells");
    for (int c = 0; c < NC && gr; ++c) { unsigned m = 0; int n = 0, w = 0; gr = ia[c + 1] >= ia[c] && ia[c + 1] <= NF; for (int k = ia[c]; gr && k < ia[c + 1]; ++k) { gr = ja[k] >= 0 && ja[k] < NC; if (gr) m |= 1u << ja[k]; ++n; } for (int f = 0; f < NF; ++f) { const int a = FC[f][0], b = FC[f][1]; if (a < 0 || b < 0) continue; w += (b == c && flux[f] > 0) || (a == c && flux[f] < 0); } gr = gr && m == up[c] && n == w; }
    sym_check(gr, "the upwind graph lists the upstream cell of every inflow face");
    Rec r; for (int rep = 0; rep < 2; ++rep) { r.go(g, &flux[0]);
        sym_check(r.seq() == seq && (int)r.comps().size() == nc + 1, "the solver interface uses the same order"); bool cl = (int)r.calls.size() == nc; for (int k = 0; k < nc && cl; ++k) cl = r.calls[k] == I(seq.begin() + comp[k], seq.begin() + comp[k + 1]) && r.comps()[k] == comp[k];
        sym_check(cl, "every component is solved once, in order, with its own cells"); }
}
