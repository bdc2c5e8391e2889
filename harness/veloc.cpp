// C30: velocity reconstruction and generalised barycentric coordinates
#include "gridutil.hpp"
#include <opm/core/grid/cart_grid.h>
extern "C" {
#include <opm/core/grid/cpgpreprocess/geometry.h>
}
#include <opm/core/utility/VelocityInterpolation.hpp>
#include <opm/core/utility/WachspressCoord.hpp>
#include <opm/core/utility/miscUtilities.hpp>
typedef std::vector<double> V;
#ifndef SHAPE
#define SHAPE 0
#endif
extern "C" void harness()
{
#if SHAPE == 0        // 2D boxes of any size
    const int dim = 2; V x(1, 0.0), y(1, 0.0); for (int i = 0; i < 2; ++i) x.push_back(x[i] + rvar("dx", i, 0.25, 4)); y.push_back(rvar("dy", 0, 0.25, 4));
    UnstructuredGrid* g = create_grid_tensor2d(2, 1, &x[0], &y[0]);
#elif SHAPE == 1      // 3D boxes
    const int dim = 3; V x(1, 0.0), y(1, 0.0), z(1, 0.0); for (int i = 0; i < 2; ++i) x.push_back(x[i] + (SYMBOX ? rvar("dx", i, 0.25, 4) : 1.0 + i)); y.push_back(SYMBOX ? rvar("dy", 0, 0.25, 4) : 0.5); z.push_back(SYMBOX ? rvar("dz", 0, 0.25, 4) : 3.0);
    UnstructuredGrid* g = create_grid_tensor3d(2, 1, 1, &x[0], &y[0], &z[0], 0);
#else                 // 2D convex quadrilaterals, fixed shapes
    const int dim = 2; UnstructuredGrid* g = create_grid_cart2d(2, 1, 1, 1); const double P[2][12] = { { 0, 0, 2, 0.5, 4, 0, 0.25, 3, 1.5, 2, 3, 2.5 }, { 0, 0, 1, 0, 3, 1, 1, 2, 2, 2, 4, 3 } };
    const int sh = sym_choice("shape", 2); for (int i = 0; i < 12; ++i) g->node_coordinates[i] = P[sh][i];
    compute_face_geometry(2, g->node_coordinates, g->number_of_faces, g->face_nodepos, g->face_nodes, g->face_normals, g->face_centroids, g->face_areas);
    compute_cell_geometry(2, g->node_coordinates, g->face_nodepos, g->face_nodes, g->face_cells, g->face_normals, g->face_centroids, g->number_of_cells, g->cell_facepos, g->cell_faces, g->cell_centroids, g->cell_volumes);
    // the grid's two-dimensional normals are required to point from the first cell to the second
    for (int f = 0; f < g->number_of_faces; ++f) { const int c = g->face_cells[2 * f] >= 0 ? g->face_cells[2 * f] : g->face_cells[2 * f + 1]; double d = 0; for (int k = 0; k < 2; ++k) d += g->face_normals[2 * f + k] * (g->face_centroids[2 * f + k] - g->cell_centroids[2 * c + k]); if ((d < 0) == (g->face_cells[2 * f] >= 0)) for (int k = 0; k < 2; ++k) g->face_normals[2 * f + k] *= -1; }
#endif
    const int nf = g->number_of_faces, nc = g->number_of_cells; V v = rvec("v", dim, -4, 4), q(nf, 0.0), o(dim, -7.0);
    for (int f = 0; f < nf; ++f) for (int d = 0; d < dim; ++d) q[f] += v[d] * g->face_normals[dim * f + d];
    Opm::VelocityInterpolationConstant ci(*g); Opm::VelocityInterpolationECVI ei(*g); Opm::WachspressCoord wc(*g);
    if (SHAPE < 2) {   // needs exact cell centroids
        V cv(1, -7.0); Opm::estimateCellVelocity(*g, q, cv); ci.setupFluxes(&q[0]); sym_check((int)cv.size() == nc * dim, "one velocity per cell");
        for (int c = 0; c < nc; ++c) { ci.interpolate(c, &v[0], &o[0]); for (int d = 0; d < dim; ++d) { sym_check_eq(cv[c * dim + d], v[d], "cell velocity of a constant field"); sym_check_eq(o[d], v[d], "constant interpolation of a constant field"); } }
        V r = rvec("r", nf, -4, 4); Opm::estimateCellVelocity(*g, r, cv); ci.setupFluxes(&r[0]);
        for (int c = 0; c < nc; ++c) { ci.interpolate(c, &v[0], &o[0]); for (int d = 0; d < dim; ++d) sym_check_eq(cv[c * dim + d], o[d], "both cell velocity estimates agree for any fluxes"); }
    }
    const int cell = sym_choice("cell", 2); V X(dim);
#if SHAPE < 2
    V tt = rvec("t", dim, 0.015625, 0.984375); for (int d = 0; d < dim; ++d) { const double* cc = g->cell_centroids + dim * cell; double w = d == 0 ? x[cell + 1] - x[cell] : d == 1 ? y[1] : 0;
#if SHAPE == 1
        if (d == 2) w = z[1];
#endif
        X[d] = cc[d] + (tt[d] - 0.5) * w; }
#else
    X = rvec("X", dim, 0, 4);
    for (int h = g->cell_facepos[cell]; h < g->cell_facepos[cell + 1]; ++h) { const int f = g->cell_faces[h]; const double s = g->face_cells[2 * f] == cell ? 1 : -1; double d = 0; for (int k = 0; k < 2; ++k) d += s * g->face_normals[2 * f + k] * (g->face_centroids[2 * f + k] - X[k]); sym_assume_le(0.015625, d); }
#endif
    const int n = wc.numCorners(cell); V b(n, -7.0); wc.cartToBary(cell, &X[0], &b[0]); double s = 0; V p(dim, 0.0);
    sym_check(n == (dim == 2 ? 4 : 8), "corners of a cell");
    for (int i = 0; i < n; ++i) { sym_check_le(0.0, b[i], "barycentric coordinates are non-negative"); s += b[i]; const int vx = wc.cornerInfo()[cell][i].vertex; for (int d = 0; d < dim; ++d) p[d] += b[i] * g->node_coordinates[dim * vx + d]; }
    sym_check_eq(s, 1.0, "barycentric coordinates sum to one"); for (int d = 0; d < dim; ++d) sym_check_eq(p[d], X[d], "barycentric coordinates reproduce the point");
    ei.setupFluxes(&q[0]); ei.interpolate(cell, &X[0], &o[0]); for (int d = 0; d < dim; ++d) sym_check_eq(o[d], v[d], "corner-velocity interpolation of a constant field");
    // arbitrary fluxes: at a face's centroid the normal velocity is the flux density (boxes); at corners both adjacent flux densities are met
    V r = rvec("r", nf, -4, 4); ei.setupFluxes(&r[0]);
    for (int i = 0; i < n; ++i) {
        const int vx = wc.cornerInfo()[cell][i].vertex; const double* P0 = g->node_coordinates + dim * vx; ei.interpolate(cell, P0, &o[0]);
        for (int h = g->cell_facepos[cell]; h < g->cell_facepos[cell + 1]; ++h) { const int f = g->cell_faces[h]; bool has = false; for (int t = g->face_nodepos[f]; t < g->face_nodepos[f + 1]; ++t) has = has || g->face_nodes[t] == vx; if (!has) continue; double e = 0; for (int d = 0; d < dim; ++d) e += o[d] * g->face_normals[dim * f + d]; sym_check_eq(e, r[f], "corner velocities match the fluxes of the adjacent faces"); }
    }
    destroy_grid(g);
}
