// C33: corner-point processing on small decks with symbolic corner depths.
#include "gridutil.hpp"
#include "guard.hpp"
#include <opm/core/grid.h>
extern "C" {
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/cpgpreprocess/preprocess.h>
}
typedef std::vector<double> V; typedef std::vector<int> I;
#ifndef YDIR
#define YDIR 1
#endif
#ifndef ZDIR
#define ZDIR 1
#endif
#ifndef SLANT
#define SLANT 0
#endif
#ifndef FIRST
#define FIRST 0
#endif
#ifndef GRIDOUT
#define GRIDOUT 0
#endif
#ifndef ACT
#define ACT 0
#endif
static const int nx = NX, ny = NY, nz = NZ;
static V zc; static I act;
static double& Z(int i, int j, int k, int di, int dj, int dk) { return zc[2 * i + di + 2 * nx * (2 * j + dj + 2 * ny * (2 * k + dk))]; }
static double PX(int i) { static const double x[4] = { 0, 2, 5, 6 }; return x[i]; }
static double PY(int j) { static const double y[4] = { 0, 3, 4, 8 }; return YDIR * y[j]; }
static double sx(int, int) { return SLANT ? 0.5 : 0.0; }   // parallel slanted pillars: between pillars of different slant the code intersects edges on the bilinear surface, not straight lines
static double sy(int, int) { return SLANT ? -0.25 : 0.0; }
static void pillar(double* c, int i, int j) { for (int e = 0; e < 2; ++e) { const double z = e ? 40 : -8; c[3 * e] = PX(i) + sx(i, j) * z * (NY > 1); c[3 * e + 1] = PY(j) + sy(i, j) * z * (NX > 1); c[3 * e + 2] = z; } }
// depths (increasing, before any sign change) of corner (di,dj) of a cell
static double T(int c, int di, int dj, int b) { return ZDIR * Z(c % nx, c / nx % ny, c / nx / ny, di, dj, b); }
static bool solid(int c) { if (!act[c]) return false; for (int q = 0; q < 4; ++q) if (T(c, q & 1, q >> 1, 0) < T(c, q & 1, q >> 1, 1)) return true; return false; }
static bool overlap(int a, int b, int d)   // do the facing sides of a and its neighbour b in direction d overlap with positive area?
{
    double at[2], ab[2], bt[2], bb[2]; for (int e = 0; e < 2; ++e) { at[e] = d ? T(a, e, 1, 0) : T(a, 1, e, 0); ab[e] = d ? T(a, e, 1, 1) : T(a, 1, e, 1); bt[e] = d ? T(b, e, 0, 0) : T(b, 0, e, 0); bb[e] = d ? T(b, e, 0, 1) : T(b, 0, e, 1); }
    bool pa = true, pb = true; for (int e = 0; e < 2; ++e) { if (at[e] < ab[e]) pa = false; if (bt[e] < bb[e]) pb = false; } if (pa || pb) return false;
    // along the interface the overlap is the minimum of four linear functions, the two thicknesses being nonnegative and not both zero
    bool above = false, below = false; for (int e = 0; e < 2; ++e) { if (bt[e] < ab[e]) above = true; if (at[e] < bb[e]) below = true; } return above && below;
}
static void build()
{
    const int nc = nx * ny * nz; zc.assign(8 * nc, 0); double thr = 0; if (KIND == 3) thr = rvar("throw", 0, 0, 9); (void)thr; act.assign(nc, 1);
    if (ACT) { bool any = false; for (int c = 0; c < nc; ++c) { act[c] = c % ACT == 0 ? 1 - sym_choice(nme("inactive", c).c_str(), 2) : 1; any = any || act[c]; } if (!any) sym_stop(); }
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        const int col = i + nx * j;
#if KIND == 0   // flat layers, column 0 at known depths (with or without gaps), the last column free
        const bool known = FIRST && col + 1 < nx * ny; const int gap = known ? sym_choice(nme("gap", col).c_str(), 2) : 0; double lo = -4;
        for (int k = 0; k < nz; ++k) for (int b = 0; b < 2; ++b) { double z; if (known) z = col + 8 * k + (gap ? 6 : 8) * b; else { z = rvar2("z", col, 2 * k + b, -4, 30); sym_assume_le(lo, z); lo = z; } for (int q = 0; q < 4; ++q) Z(i, j, k, q & 1, q >> 1, b) = z; }
#elif KIND == 1 // depths differ between the two pillars of the interface and are constant across it
        for (int e = 0; e < 2; ++e) { double lo = -4; const bool known = FIRST && col == 0; const int gap = known ? sym_choice(nme("gap", e).c_str(), 2) : 0;
            for (int k = 0; k < nz; ++k) for (int b = 0; b < 2; ++b) { double z; if (known) z = 3 * e + 8 * k + (gap ? 6 : 8) * b; else { z = rvar2(e ? "zq" : "zp", col, 2 * k + b, -4, 30); sym_assume_le(lo, z); lo = z; } for (int q = 0; q < 2; ++q) Z(i, j, k, nx > 1 ? q : e, nx > 1 ? e : q, b) = z; } }
#elif KIND == 2 // single column, all four corner depths free; two corners share depths
        for (int q = 0; q < 4; ++q) { double lo = -4; for (int k = 0; k < nz; ++k) for (int b = 0; b < 2; ++b) { const int s = q == 3 ? 1 : q == 2 ? 0 : q; double z = q < 2 ? rvar2("z", s, 2 * k + b, -4, 30) : Z(i, j, k, s & 1, 0, b) + (q == 3 ? 1.0 : 0.5); if (q < 2) { sym_assume_le(lo, z); lo = z; } Z(i, j, k, q & 1, q >> 1, b) = z; } }
#else           // many columns, two free throws
        const double s = thr; for (int k = 0; k < nz; ++k) for (int b = 0; b < 2; ++b) for (int q = 0; q < 4; ++q) Z(i, j, k, q & 1, q >> 1, b) = 4 * (k + b) + (col % 3 == 0 ? 0.0 : s);
#endif
    }
    if (ZDIR < 0) { for (size_t i = 0; i < zc.size(); ++i) zc[i] = -zc[i]; bool pos = false; for (int c = 0; c < nc; ++c) pos = pos || solid(c); if (!pos) sym_stop(); }
}
static bool same(double a, double b) { return sym_is_symbolic() ? a == b : std::fabs(a - b) < 1e-9; }
static double area(const processed_grid& g, int f, int u, int v) { double s = 0; const int p0 = g.face_ptr[f], n = g.face_ptr[f + 1] - p0; const double* r0 = g.node_coordinates + 3 * g.face_nodes[p0]; for (int k = 1; k + 1 < n; ++k) { const double *a = g.node_coordinates + 3 * g.face_nodes[p0 + k], *b = g.node_coordinates + 3 * g.face_nodes[p0 + k + 1]; s += (a[u] - r0[u]) * (b[v] - r0[v]) - (b[u] - r0[u]) * (a[v] - r0[v]); } return s / 2; }
extern "C" void harness()
{
    build(); const int nc = nx * ny * nz; V coord(6 * (nx + 1) * (ny + 1)); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) pillar(&coord[6 * (i + (nx + 1) * j)], i, j);
    I loc(nc, -1), glob; for (int c = 0; c < nc; ++c) if (solid(c)) { loc[c] = (int)glob.size(); glob.push_back(c); } if (glob.empty()) sym_stop();
    grdecl in; in.dims[0] = nx; in.dims[1] = ny; in.dims[2] = nz; in.coord = &coord[0]; in.zcorn = &zc[0]; in.actnum = ACT ? &act[0] : 0;
#if GRIDOUT
    UnstructuredGrid* ug = create_grid_cornerpoint(&in, 0.0); sym_check(ug != 0, "grid is created"); if (!ug) return;
    sym_check(ug->number_of_cells == (int)glob.size() && ug->dimensions == 3 && ug->cartdims[0] == nx && ug->cartdims[1] == ny && ug->cartdims[2] == nz, "exactly the active cells with positive extent");
    bool gok = true, tok = true; for (int c = 0; c < ug->number_of_cells; ++c) gok = gok && ug->global_cell[c] == glob[c]; sym_check(gok, "cells keep their logical index, in order");
    checkTopology(ug, false); checkDivergence(ug, true);
    for (int c = 0; c < ug->number_of_cells; ++c) {
        const int gc = glob[c], ix[3] = { gc % nx, gc / nx % ny, gc / nx / ny };
        for (int h = ug->cell_facepos[c]; h < ug->cell_facepos[c + 1]; ++h) { const int f = ug->cell_faces[h], tag = ug->cell_facetag[h], o = ug->face_cells[2 * f] == c ? ug->face_cells[2 * f + 1] : ug->face_cells[2 * f]; tok = tok && tag >= 0 && tag < 6 && (tag % 2 == 1) == (ug->face_cells[2 * f] == c); if (o < 0) continue; const int go = glob[o], io[3] = { go % nx, go / nx % ny, go / nx / ny }; for (int d = 0; d < 2; ++d) tok = tok && io[d] - ix[d] == (tag / 2 == d ? (tag % 2 ? 1 : -1) : 0); if (tag / 2 == 2) tok = tok && (io[2] > ix[2]) == (tag == 5); }
        const double top = T(gc, 0, 0, 0), bot = T(gc, 0, 0, 1);
        sym_check_eq(ug->cell_volumes[c], (PX(ix[0] + 1) - PX(ix[0])) * YDIR * (PY(ix[1] + 1) - PY(ix[1])) * (bot - top), "cell volume"); sym_check_eq(ug->cell_centroids[3 * c + 2], ZDIR * (top + bot) / 2, "cell centroid depth");
        sym_check_eq(ug->cell_centroids[3 * c], (PX(ix[0] + 1) + PX(ix[0])) / 2, "cell centroid x"); sym_check_eq(ug->cell_centroids[3 * c + 1], (PY(ix[1] + 1) + PY(ix[1])) / 2, "cell centroid y");
    }
    sym_check(tok, "direction tags"); destroy_grid(ug); guardDone();
#else
    processed_grid g; process_grdecl(&in, 0.0, &g); bool ok = g.number_of_cells == (int)glob.size();
    for (int c = 0; ok && c < g.number_of_cells; ++c) ok = g.local_cell_index[c] == glob[c];
    sym_check(ok, "exactly the active cells with positive extent, in order"); const int nf = g.number_of_faces, nn = g.number_of_nodes;
    bool nb = true, nd = true; for (int f = 0; f < nf; ++f) { const int a = g.face_neighbors[2 * f], b = g.face_neighbors[2 * f + 1]; nb = nb && a != b && a >= -1 && b >= -1 && a < g.number_of_cells && b < g.number_of_cells; nd = nd && g.face_ptr[f + 1] - g.face_ptr[f] >= 3; for (int k = g.face_ptr[f]; k < g.face_ptr[f + 1]; ++k) { const int n = g.face_nodes[k]; nd = nd && n >= 0 && n < nn; for (int l = g.face_ptr[f]; l < k; ++l) nd = nd && g.face_nodes[l] != n; } }
    sym_check(g.face_ptr[0] == 0 && nb, "a face has one or two distinct neighbours"); sym_check(nd, "a face has at least three distinct nodes within the table");
    if (!nb || !nd) return;
    // nodes lie on pillars; beyond them, intersections lie inside an interface plane
    ok = true; if (!SLANT) { int n = 0; for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { double last = 0; for (bool first = true; n < g.number_of_nodes_on_pillars; ++n, first = false) { const double* x = g.node_coordinates + 3 * n; if (!same(x[0], PX(i)) || !same(x[1], PY(j))) break; if (!first && ZDIR * x[2] <= ZDIR * last) ok = false; last = x[2]; } } ok = ok && n == g.number_of_nodes_on_pillars; }
    sym_check(ok, "nodes lie on the pillars at distinct depths");
    // sides: areas and connections
    for (int d = 0; d < 2; ++d) {
        const int u = d ? 2 : 1, v = d ? 0 : 2; const double s = d ? YDIR : 1;
        V ar(nf, 0.0); for (int f = 0; f < nf; ++f) if (g.face_tag[f] == (d ? BACK : LEFT)) { ar[f] = s * area(g, f, u, v); sym_check_lt(0.0, ar[f], "normals point from the first cell to the second"); }
        for (int c = 0; c < nc; ++c) if (loc[c] >= 0) for (int side = 0; side < 2; ++side) {
            const int ix[2] = { c % nx, c / nx % ny }, e = 1 - d; double sum = 0; for (int f = 0; f < nf; ++f) if (g.face_tag[f] == (d ? BACK : LEFT) && g.face_neighbors[2 * f + 1 - side] == loc[c]) sum += ar[f];
            double h0 = d ? T(c, 0, side, 1) - T(c, 0, side, 0) : T(c, side, 0, 1) - T(c, side, 0, 0), h1 = d ? T(c, 1, side, 1) - T(c, 1, side, 0) : T(c, side, 1, 1) - T(c, side, 1, 0);
#if SLANT
            { const int i = ix[0], j = ix[1]; double xe[2][2]; for (int w = 0; w < 2; ++w) for (int b = 0; b < 2; ++b) { const int di = d ? w : side, dj = d ? side : w; const double z = T(c, di, dj, b); xe[w][b] = d ? PX(i + di) + sx(i + di, j + dj) * z * (NY > 1) : PY(j + dj) + sy(i + di, j + dj) * z * (NX > 1); }
              const double X[4] = { xe[0][0], xe[1][0], xe[1][1], xe[0][1] }, Y[4] = { d ? T(c, 0, side, 0) : T(c, side, 0, 0), d ? T(c, 1, side, 0) : T(c, side, 1, 0), d ? T(c, 1, side, 1) : T(c, side, 1, 1), d ? T(c, 0, side, 1) : T(c, side, 0, 1) }; double A = 0; for (int k = 0; k < 4; ++k) A += X[k] * Y[(k + 1) % 4] - X[(k + 1) % 4] * Y[k]; sym_check_eq(sum, A / 2, "faces cover the side of a cell exactly"); (void)e; (void)h0; (void)h1; }
#else
            const double w = e == 0 ? PX(ix[0] + 1) - PX(ix[0]) : YDIR * (PY(ix[1] + 1) - PY(ix[1])); sym_check_eq(sum, w * (h0 + h1) / 2, "faces cover the side of a cell exactly");
#endif
        }
        ok = true; for (int a = 0; a < nc; ++a) for (int b = 0; b < nc; ++b) { if (loc[a] < 0 || loc[b] < 0 || b % nx - a % nx != (d == 0) || b / nx % ny - a / nx % ny != (d == 1)) continue; int cnt = 0; for (int f = 0; f < nf; ++f) cnt += g.face_tag[f] == (d ? BACK : LEFT) && g.face_neighbors[2 * f] == loc[a] && g.face_neighbors[2 * f + 1] == loc[b]; ok = ok && cnt == overlap(a, b, d); }
        for (int f = 0; f < nf; ++f) if (g.face_tag[f] == (d ? BACK : LEFT) && g.face_neighbors[2 * f] >= 0 && g.face_neighbors[2 * f + 1] >= 0) { const int a = glob[g.face_neighbors[2 * f]], b = glob[g.face_neighbors[2 * f + 1]]; ok = ok && b % nx - a % nx == (d == 0) && b / nx % ny - a / nx % ny == (d == 1); }
        sym_check(ok, "lateral neighbours share one face exactly when their sides overlap");
    }
    // columns
    ok = true; int ntop = 0, want = 0; for (int f = 0; f < nf; ++f) ntop += g.face_tag[f] == TOP;
    for (int col = 0; col < nx * ny; ++col) { int prev = -1; for (int k = 0; k < nz; ++k) { const int c = col + nx * ny * k; if (loc[c] < 0) continue;
        int up = -1, dn = -1, nu = 0, ndn = 0; for (int f = 0; f < nf; ++f) if (g.face_tag[f] == TOP) { if (g.face_neighbors[2 * f + 1] == loc[c]) { up = f; ++nu; } if (g.face_neighbors[2 * f] == loc[c]) { dn = f; ++ndn; } }
        if (nu != 1 || ndn != 1) { ok = false; break; } bool join = prev >= 0; for (int q = 0; join && q < 4; ++q) if (T(prev, q & 1, q >> 1, 1) != T(c, q & 1, q >> 1, 0)) join = false;
        ok = ok && g.face_neighbors[2 * up] == (join ? loc[prev] : -1); want += join ? 1 : 2; prev = c;
        for (int b = 0; b < 2; ++b) { const int f = b ? dn : up; if (g.face_ptr[f + 1] - g.face_ptr[f] != 4) { ok = false; continue; } bool hit[4] = { false, false, false, false }; for (int p = g.face_ptr[f]; p < g.face_ptr[f + 1]; ++p) { const double* x = g.node_coordinates + 3 * g.face_nodes[p]; int at = -1; for (int q = 0; q < 4; ++q) { const double z = ZDIR * T(c, q & 1, q >> 1, b); if (hit[q]) continue; if (SLANT) { if (x[2] == z && (sym_is_symbolic() || std::fabs(x[0] - PX(col % nx + (q & 1)) - sx(col % nx + (q & 1), 0) * z * (NY > 1)) + std::fabs(x[1] - PY(col / nx + (q >> 1)) - sy(0, col / nx + (q >> 1)) * z * (NX > 1)) < 1e-9)) { at = q; break; } } else if (same(x[0], PX(col % nx + (q & 1))) && same(x[1], PY(col / nx + (q >> 1))) && x[2] == z) { at = q; break; } } if (at < 0) ok = false; else hit[at] = true; } if (!SLANT) { const double s = area(g, f, 0, 1); sym_check_lt(0.0, ZDIR * s, "normals point from the first cell to the second"); } } }
        want += prev >= 0; }
    // each column contributes tops (joined or not) plus its lowest bottom; an unjoined top adds the bottom of the cell above
    int expect = 0; for (int col = 0; col < nx * ny; ++col) { int prev = -1; for (int k = 0; k < nz; ++k) { const int c = col + nx * ny * k; if (loc[c] < 0) continue; expect += 1; if (prev >= 0) { bool join = true; for (int q = 0; join && q < 4; ++q) if (T(prev, q & 1, q >> 1, 1) != T(c, q & 1, q >> 1, 0)) join = false; if (!join) ++expect; } prev = c; } if (prev >= 0) ++expect; } (void)want;
    sym_check(ok, "stacked cells are connected exactly when their depths meet, through faces at their corner depths"); sym_check(ntop == expect, "number of faces between layers");
    free_processed_grid(&g); guardDone();
#endif
}
