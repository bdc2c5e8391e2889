// C31: Cartesian and tensor grids
#include "gridutil.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <cstdlib>
typedef std::vector<double> V;
// n is the sizes, X the coordinates per direction; slope: depth gradient in x and y
static void checkBoxes(const UnstructuredGrid* g, int dim, const int* n, const V* X, const double* slope, double top)
{
    const int nx = n[0], ny = n[1], nz = dim == 3 ? n[2] : 1; const int N[3] = { nx, ny, nz };
    sym_check(g->dimensions == dim && g->number_of_cells == nx * ny * nz, "dimensions and cell count");
    const int nodes = (nx + 1) * (ny + 1) * (dim == 3 ? nz + 1 : 1), faces = dim == 3 ? (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1) : (nx + 1) * ny + nx * (ny + 1);
    sym_check(g->number_of_faces == faces && g->number_of_nodes == nodes, "face and node counts");
    bool ok = true; for (int d = 0; d < dim; ++d) ok = ok && g->cartdims[d] == N[d]; sym_check(ok && g->global_cell == 0, "logical dimensions");
    checkTopology(g);
    ok = true; int c = 0;
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i, ++c) {
        const int I[3] = { i, j, k }; double lo[3], hi[3], mid[3], w[3], vol = 1; const int st[3] = { 1, nx, nx * ny };
        for (int d = 0; d < dim; ++d) { lo[d] = X[d][I[d]]; hi[d] = X[d][I[d] + 1]; mid[d] = (lo[d] + hi[d]) / 2; w[d] = hi[d] - lo[d]; vol *= w[d]; }
        if (dim == 3) { const double off = top + slope[0] * mid[0] + slope[1] * mid[1]; mid[2] += off; lo[2] += off; hi[2] += off; }
        sym_check_eq(g->cell_volumes[c], vol, "cell volume");
        for (int d = 0; d < dim; ++d) sym_check_eq(g->cell_centroids[dim * c + d], mid[d], "cell centroid");
        ok = ok && g->cell_facepos[c + 1] - g->cell_facepos[c] == 2 * dim; bool seen[6] = { false };
        for (int h = g->cell_facepos[c]; h < g->cell_facepos[c + 1]; ++h) {
            const int f = g->cell_faces[h], tag = g->cell_facetag[h]; if (tag < 0 || tag >= 2 * dim || seen[tag]) { ok = false; continue; } seen[tag] = true; const int d = tag / 2, up = tag % 2;
            const int nb = up ? (I[d] + 1 < N[d] ? c + st[d] : -1) : (I[d] > 0 ? c - st[d] : -1);
            ok = ok && g->face_cells[2 * f + (up ? 0 : 1)] == c && g->face_cells[2 * f + (up ? 1 : 0)] == nb;
            double area = vol / w[d]; double nn[3] = { 0, 0, 0 }; nn[d] = area;
            if (dim == 3 && d == 2) { nn[0] = -slope[0] * area; nn[1] = -slope[1] * area; }
            for (int q = 0; q < dim; ++q) {
                sym_check_eq(g->face_normals[dim * f + q], nn[q], "face normal");
                double e = q == d ? (up ? hi[q] : lo[q]) : mid[q]; if (dim == 3 && q == 2 && d < 2) e += slope[d] * ((up ? hi[d] : lo[d]) - mid[d]);
                sym_check_eq(g->face_centroids[dim * f + q], e, "face centroid");
                double m = 0; const int m0 = g->face_nodepos[f], m1 = g->face_nodepos[f + 1]; for (int t = m0; t < m1; ++t) m += g->node_coordinates[dim * g->face_nodes[t] + q];
                sym_check_eq(m / (m1 - m0), e, "face nodes surround the face centroid");
            }
            ok = ok && g->face_nodepos[f + 1] - g->face_nodepos[f] == 2 * (dim - 1);
        }
    }
    sym_check(ok, "each face separates the logically adjacent cells and is tagged with its direction");
    for (int t = 0; t < nodes; ++t) { const int I[3] = { t % (nx + 1), t / (nx + 1) % (ny + 1), t / (nx + 1) / (ny + 1) }; for (int d = 0; d < dim; ++d) { double e = X[d][I[d]]; if (d == 2) e += top + slope[0] * X[0][I[0]] + slope[1] * X[1][I[1]]; sym_check_eq(g->node_coordinates[dim * t + d], e, "node coordinates"); } }
    checkDivergence(g);
}
static V sums(const V& d) { V x(1, 0.0); for (size_t i = 0; i < d.size(); ++i) x.push_back(x.back() + d[i]); return x; }
extern "C" void harness()
{
    const double flat[2] = { 0, 0 }; V X[3]; int n[3]; const char* nm[3] = { "x", "y", "z" };
#if MODE == 0
    n[0] = 1 + sym_choice("nx", 3); n[1] = 1 + sym_choice("ny", 3); n[2] = 1;
    if (sym_choice("uniform", 2)) { const double dx = sym_real("dx", 0.125, 4), dy = sym_real("dy", 0.125, 4); for (int i = 0; i <= n[0]; ++i) X[0].push_back(i * dx); for (int i = 0; i <= n[1]; ++i) X[1].push_back(i * dy); Opm::GridManager gm(n[0], n[1], dx, dy); checkBoxes(gm.c_grid(), 2, n, X, flat, 0); return; }
    for (int d = 0; d < 2; ++d) { const double o = rvar("o", d, -4, 4); X[d] = sums(rvec(nm[d], n[d], 0.125, 4)); for (size_t i = 0; i < X[d].size(); ++i) X[d][i] += o; }
    UnstructuredGrid* g = create_grid_tensor2d(n[0], n[1], &X[0][0], &X[1][0]); checkBoxes(g, 2, n, X, flat, 0); destroy_grid(g);
#elif MODE == 1
    n[0] = 1 + sym_choice("nx", 3); n[1] = 1 + sym_choice("ny", 2); n[2] = 1 + sym_choice("nz", 3);
    if (sym_choice("uniform", 2)) { double h[3]; for (int d = 0; d < 3; ++d) { h[d] = rvar("h", d, 0.125, 4); for (int i = 0; i <= n[d]; ++i) X[d].push_back(i * h[d]); } Opm::GridManager gm(n[0], n[1], n[2], h[0], h[1], h[2]); checkBoxes(gm.c_grid(), 3, n, X, flat, 0); return; }
    for (int d = 0; d < 3; ++d) { const double o = rvar("o", d, -4, 4); X[d] = sums(rvec(nm[d], n[d], 0.125, 4)); for (size_t i = 0; i < X[d].size(); ++i) X[d][i] += o; }
    UnstructuredGrid* g = create_grid_tensor3d(n[0], n[1], n[2], &X[0][0], &X[1][0], &X[2][0], 0); checkBoxes(g, 3, n, X, flat, 0); destroy_grid(g);
#else   // from a deck: plain, uniform tops, planar topography
    const int sz[3][3] = { { 2, 1, 1 }, { 1, 2, 1 }, { 1, 1, 2 } }; const int which = sym_choice("size", 3), kind = sym_choice("kind", 5); for (int d = 0; d < 3; ++d) n[d] = sz[which][d];
    Opm::EclipseGridParser deck; const char* kw[3] = { "DXV", "DYV", "DZV" };
    for (int d = 0; d < 3; ++d) { V w = rvec(nm[d], n[d], 0.125, 4); X[d] = sums(w); deck.setFloatingPointField(kw[d], w); }
    if (sym_choice("dimens", 2)) deck.setIntegerField("DIMENS", std::vector<int>(n, n + 3)); else { Opm::SPECGRID* s = new Opm::SPECGRID; s->dimensions.assign(n, n + 3); deck.setSpecialField("SPECGRID", Opm::EclipseGridParser::SpecialFieldPtr(s)); }
    const double sl[5][2] = { { 0, 0 }, { 0, 0 }, { 0.75, 0 }, { 0, -0.75 }, { 0, 0 } }; double top = 0.0;
    if (kind) top = sym_real("top", 0, 8);
    if (kind == 1) deck.setFloatingPointField("TOPS", V(n[0] * n[1], top));
    if (kind >= 2) { V dz; for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) dz.push_back(top + sl[kind][0] * X[0][i] + sl[kind][1] * X[1][j]); deck.setFloatingPointField("DEPTHZ", dz); }
    Opm::GridManager gm(deck); checkBoxes(gm.c_grid(), 3, n, X, sl[kind], top);
#endif
}
