// C34: column extraction; part 0: corner-point grids with symbolic gaps between layers, part 1: hand-made cell numbering and face tables.
#include "symutil.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <opm/core/grid.h>
#include <opm/core/grid/ColumnExtract.hpp>
extern "C" {
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/cpgpreprocess/preprocess.h>
}
typedef std::vector<int> I; typedef std::vector<double> V;
// joined[c]: cell c (local number) is a neighbour of the next active cell below it in its column
static void check(const UnstructuredGrid& g, const I& glob, const I& joined, int pre)
{
    std::vector<I> col; Opm::extractColumn(g, col); const int n = (int)glob.size(), A = NX * NY; I cnt(n, 0); bool nonempty = true, lat = true, asc = true, conn = true, split = true; (void)pre;
    for (size_t q = 0; q < col.size(); ++q) { nonempty = nonempty && !col[q].empty(); for (size_t k = 0; k < col[q].size(); ++k) { const int c = col[q][k]; if (c < 0 || c >= n) { sym_check(0, "column lists cells of the grid"); return; } ++cnt[c]; if (k) { const int p = col[q][k - 1]; lat = lat && glob[p] % A == glob[c] % A; asc = asc && glob[p] / A < glob[c] / A; conn = conn && joined[p]; if (glob[p] % A == glob[c] % A && glob[p] < glob[c]) for (int o = 0; o < n; ++o) asc = asc && !(glob[o] % A == glob[c] % A && glob[o] > glob[p] && glob[o] < glob[c]); } }
        if (!col[q].empty()) { const int last = col[q].back(); split = split && !joined[last]; } }
    bool once = true; for (int c = 0; c < n; ++c) once = once && cnt[c] == 1;
    sym_check(once, "every cell is in exactly one column"); sym_check(nonempty, "no empty column"); sym_check(lat, "cells of a column share their lateral index"); sym_check(asc, "cells of a column are listed by increasing depth without skips");
    sym_check(conn, "consecutive cells of a column are neighbours"); sym_check(split, "a column ends only where the next cell is not a neighbour");
}
extern "C" void harness()
{
    const int nc = NX * NY * NZ;
#if PART == 0
    V zc(8 * nc), co(6 * (NX + 1) * (NY + 1)); I act(nc, 1); std::vector<V> top(NX * NY), bot(NX * NY);
    for (int j = 0; j <= NY; ++j) for (int i = 0; i <= NX; ++i) { double* c = &co[6 * (i + (NX + 1) * j)]; c[0] = c[3] = 2 * i; c[1] = c[4] = 3 * j; c[2] = 0; c[5] = 30; }
    for (int c = 0; c < nc; ++c) if (c != nc / 2 && c % 2) act[c] = 1 - sym_choice(nme("inactive", c).c_str(), 2);
    for (int q = 0; q < NX * NY; ++q) { double z = q; for (int k = 0; k < NZ; ++k) { if (k) { const double d = q == 0 ? rvar2("gap", q, k, 0, 3) : 0.0; z += d; } top[q].push_back(z); z += q == 0 && k == NZ - 1 ? rvar("thickness", q, 0, 2) : 2.0; bot[q].push_back(z); for (int b = 0; b < 2; ++b) for (int e = 0; e < 4; ++e) zc[2 * (q % NX) + e % 2 + 2 * NX * (2 * (q / NX) + e / 2 + 2 * NY * (2 * k + b))] = b ? bot[q][k] : top[q][k]; } }
    grdecl in; in.dims[0] = NX; in.dims[1] = NY; in.dims[2] = NZ; in.coord = &co[0]; in.zcorn = &zc[0]; in.actnum = &act[0];
    UnstructuredGrid* g = create_grid_cornerpoint(&in, 0.0); if (!g) { sym_check(0, "grid"); return; } I glob, joined; const int A = NX * NY;
    for (int c = 0; c < nc; ++c) if (act[c] && top[c % A][c / A] < bot[c % A][c / A]) { glob.push_back(c); int nx = -1; for (int d = c + A; d < nc && nx < 0; d += A) if (act[d] && top[d % A][d / A] < bot[d % A][d / A]) nx = d; joined.push_back(nx >= 0 && bot[c % A][c / A] == top[nx % A][nx / A]); }
    bool same = g->number_of_cells == (int)glob.size(); sym_check(same, "active cells"); if (same) check(*g, glob, joined, 0); destroy_grid(g);
#else
    // cells in logical order or in a scrambled one; vertical and lateral neighbour relations chosen per pair
    const int A = NX * NY, perm = sym_choice("numbering", 3); I cells; for (int c = 0; c < nc; ++c) if (perm == 0 || !sym_choice(nme("inactive", c).c_str(), 2)) cells.push_back(c);
    if (cells.empty()) sym_stop(); const int n = (int)cells.size(); I glob(n); for (int c = 0; c < n; ++c) glob[c] = perm < 2 ? cells[c] : cells[n % 2 == 0 || n == 1 ? n - 1 - c : (2 * c + 1) % n];
    std::vector<I> hf(n); I fc, joined(n, 0);
    for (int c = 0; c < n; ++c) { hf[c].push_back((int)fc.size() / 2); fc.push_back(-1); fc.push_back(c); }
    for (int c = 0; c < n; ++c) { int nx = -1; for (int d = 0; d < n; ++d) if (glob[d] % A == glob[c] % A && glob[d] > glob[c] && (nx < 0 || glob[d] < glob[nx])) nx = d;
        if (nx >= 0 && sym_choice(nme("joined", c).c_str(), 2)) { joined[c] = 1; hf[c].push_back((int)fc.size() / 2); hf[nx].push_back((int)fc.size() / 2); fc.push_back(c % 2 ? c : nx); fc.push_back(c % 2 ? nx : c); }
        for (int d = 0; d < n; ++d) if (glob[d] == glob[c] + 1 && glob[d] % NX) { hf[c].push_back((int)fc.size() / 2); hf[d].push_back((int)fc.size() / 2); fc.push_back(c); fc.push_back(d); } }
    I pos(1, 0), list; for (int c = 0; c < n; ++c) { list.insert(list.end(), hf[c].begin(), hf[c].end()); pos.push_back((int)list.size()); }
    UnstructuredGrid g; std::memset(&g, 0, sizeof g); g.dimensions = 3; g.number_of_cells = n; g.number_of_faces = (int)fc.size() / 2; g.cell_facepos = &pos[0]; g.cell_faces = &list[0]; g.face_cells = &fc[0]; g.global_cell = perm ? &glob[0] : 0; g.cartdims[0] = NX; g.cartdims[1] = NY; g.cartdims[2] = NZ;
    check(g, glob, joined, 1);
#endif
}
