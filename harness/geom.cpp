// C32: geometry of general planar-faced cells
#include "gridutil.hpp"
#include <opm/core/grid/cart_grid.h>
extern "C" {
#include <opm/core/grid/cpgpreprocess/geometry.h>
}
typedef std::vector<double> V;
static void geometry(UnstructuredGrid* g)
{
    const int d = g->dimensions;
    compute_face_geometry(d, g->node_coordinates, g->number_of_faces, g->face_nodepos, g->face_nodes, g->face_normals, g->face_centroids, g->face_areas);
    compute_cell_geometry(d, g->node_coordinates, g->face_nodepos, g->face_nodes, g->face_cells, g->face_normals, g->face_centroids, g->number_of_cells, g->cell_facepos, g->cell_faces, g->cell_centroids, g->cell_volumes);
}
extern "C" void harness()
{
#if MODE == 0   // 2D triangles and quadrilaterals, arbitrary vertices in convex position
    const int nv = 3 + sym_choice("quad", 2); UnstructuredGrid* g = allocate_grid(2, 1, nv, 2 * nv, nv, nv);
    g->dimensions = 2; g->number_of_cells = 1; g->number_of_faces = nv; g->number_of_nodes = nv; g->face_nodepos[0] = 0; g->cell_facepos[0] = 0; g->cell_facepos[1] = nv;
    const bool cw = sym_choice("second", 2); V x = rvec("x", nv, -4, 4), y = rvec("y", nv, -4, 4); double mx = 0, my = 0; for (int i = 0; i < nv; ++i) { mx += x[i] / nv; my += y[i] / nv; }
    double A = 0;
    for (int i = 0; i < nv; ++i) { const int j = (i + 1) % nv; g->node_coordinates[2 * i] = x[i]; g->node_coordinates[2 * i + 1] = y[i]; g->face_nodepos[i + 1] = 2 * (i + 1); g->face_nodes[2 * i] = cw ? j : i; g->face_nodes[2 * i + 1] = cw ? i : j; g->cell_faces[i] = i; g->face_cells[2 * i] = cw ? -1 : 0; g->face_cells[2 * i + 1] = cw ? 0 : -1;
        const double cr = (x[i] - mx) * (y[j] - my) - (y[i] - my) * (x[j] - mx); sym_assume_le(0.015625, cr); A += cr / 2; }
    geometry(g);
    for (int i = 0; i < nv; ++i) { const int j = (i + 1) % nv; const double s = cw ? -1 : 1, dx = s * (x[j] - x[i]), dy = s * (y[j] - y[i]); sym_check_eq(g->face_normals[2 * i], dy, "edge normal"); sym_check_eq(g->face_normals[2 * i + 1], -dx, "edge normal"); sym_check_eq(g->face_areas[i] * g->face_areas[i], dx * dx + dy * dy, "edge length"); sym_check_le(0.0, g->face_areas[i], "edge length"); sym_check_eq(g->face_centroids[2 * i], (x[i] + x[j]) / 2, "edge midpoint"); sym_check_eq(g->face_centroids[2 * i + 1], (y[i] + y[j]) / 2, "edge midpoint"); }
    sym_check_eq(g->cell_volumes[0], A, "polygon area"); sym_check_eq(g->cell_centroids[0], mx, "cell center"); sym_check_eq(g->cell_centroids[1], my, "cell center");
    checkDivergence(g, false);
#elif MODE == 1 // two stacked parallelepipeds: any sizes, any position, fixed shears
    const double S[5][3] = { { 0, 0, 0 }, { 0.75, 0, 0 }, { 0, -0.75, 0 }, { 0, 0, 0.75 }, { 0.75, 0, 0 } }; const int sh = sym_choice("shear", 5), dir = sym_choice("dir", 3);
    const int n[3] = { dir == 0 ? 2 : 1, dir == 1 ? 2 : 1, dir == 2 ? 2 : 1 }; UnstructuredGrid* g = create_grid_cart3d(n[0], n[1], n[2]); V o = rvec("o", 3, -4, 4), h = rvec("h", 4, 0.25, 4);
    double D[3][3]; for (int d = 0; d < 3; ++d) { D[d][0] = 0; D[d][1] = h[d]; D[d][2] = h[d] + h[3]; }
    // columns of the linear map: x sheared by z, y sheared by z, z sheared by x
    for (int v = 0; v < g->number_of_nodes; ++v) { double* c = g->node_coordinates + 3 * v; const int I[3] = { (int)c[0], (int)c[1], (int)c[2] }; const double p[3] = { D[0][I[0]], D[1][I[1]], D[2][I[2]] }; c[0] = o[0] + p[0] + S[sh][0] * p[2]; c[1] = o[1] + p[1] + S[sh][1] * p[2]; c[2] = o[2] + p[2] + (sh == 3 ? S[sh][2] * p[0] : 0.0); }
    geometry(g);
    for (int c = 0; c < 2; ++c) {
        const int I[3] = { dir == 0 ? c : 0, dir == 1 ? c : 0, dir == 2 ? c : 0 }; double w[3], m[3]; for (int d = 0; d < 3; ++d) { w[d] = D[d][I[d] + 1] - D[d][I[d]]; m[d] = (D[d][I[d] + 1] + D[d][I[d]]) / 2; }
        sym_check_eq(g->cell_volumes[c], w[0] * w[1] * w[2], "cell volume");
        const double e[3] = { o[0] + m[0] + S[sh][0] * m[2], o[1] + m[1] + S[sh][1] * m[2], o[2] + m[2] + (sh == 3 ? 0.75 * m[0] : 0.0) }; for (int d = 0; d < 3; ++d) sym_check_eq(g->cell_centroids[3 * c + d], e[d], "cell centroid");
    }
    for (int f = 0; f < g->number_of_faces; ++f) for (int d = 0; d < 3; ++d) { double m = 0; for (int t = 0; t < 4; ++t) m += g->node_coordinates[3 * g->face_nodes[4 * f + t] + d] / 4; sym_check_eq(g->face_centroids[3 * f + d], m, "face centroid"); }
    checkDivergence(g);
#elif MODE == 2 // wedge-topped column: rectangular base, planar sloping top (not a parallelepiped)
    UnstructuredGrid* g = create_grid_cart3d(1, 1, 1); const int dir = sym_choice("dir", 2), flip = sym_choice("flip", 2); const double a = sym_real("a", 0.25, 4), b = sym_real("b", 0.25, 4), t = sym_real("t", 0.25, 4), s = 0.75; const double o = sym_real("o", -4, 4);
    // thickness t at one end, t + s * length at the other
    for (int v = 0; v < 8; ++v) { double* c = g->node_coordinates + 3 * v; const int I[3] = { (int)c[0], (int)c[1], (int)c[2] }; const double L = dir ? b : a; const double th = t + s * (I[dir] ? L : 0.0); c[0] = o + I[0] * a; c[1] = I[1] * b; c[2] = flip ? (I[2] ? 0.0 : -th) : (I[2] ? th : 0.0); }
    geometry(g); const double L = dir ? b : a, W = dir ? a : b;
    sym_check_eq(g->cell_volumes[0], W * L * (t + s * L / 2), "cell volume");
    // centroid of the column: mean position weighted with thickness
    const double al = (t * L / 2 + s * L * L / 3) / (t + s * L / 2), zz = (t * t + t * s * L + s * s * L * L / 3) / 2 / (t + s * L / 2);
    double e[3] = { o + (dir ? a / 2 : al), dir ? al : b / 2, flip ? -zz : zz }; for (int d = 0; d < 3; ++d) sym_check_eq(g->cell_centroids[d], e[d], "cell centroid");
    for (int f = 0; f < 6; ++f) { const int tag = f; if (tag / 2 == 2) { const bool slope = (tag == 5) != (flip == 1); sym_check_eq(g->face_areas[f], slope ? 1.25 * a * b : a * b, "top and bottom area"); }
        else if (tag / 2 == dir) sym_check_eq(g->face_areas[f], W * (t + (tag % 2 ? s * L : 0.0)), "end area"); else { sym_check_eq(g->face_areas[f], L * (t + s * L / 2), "trapezoid area"); sym_check_eq(g->face_centroids[3 * f + dir], (dir ? 0.0 : o) + al, "trapezoid centroid"); sym_check_eq(g->face_centroids[3 * f + 2], flip ? -zz : zz, "trapezoid centroid"); } }
    checkDivergence(g);
#else           // tetrahedron with three right-angled faces
    UnstructuredGrid* g = allocate_grid(3, 1, 4, 12, 4, 4); g->dimensions = 3; g->number_of_cells = 1; g->number_of_faces = 4; g->number_of_nodes = 4; const double a = sym_real("a", 0.25, 4), b = sym_real("b", 0.25, 4), c = sym_real("c", 0.25, 4), o = sym_real("o", -4, 4);
    const double P[12] = { o, 0, 0, o + a, 0, 0, o, b, 0, o, 0, c }; std::copy(P, P + 12, g->node_coordinates); const int F[12] = { 0, 2, 1, 0, 1, 3, 0, 3, 2, 1, 2, 3 }; std::copy(F, F + 12, g->face_nodes); const bool in = sym_choice("inward", 2);
    for (int f = 0; f < 4; ++f) { g->face_nodepos[f + 1] = 3 * (f + 1); g->cell_faces[f] = f; g->face_cells[2 * f] = in ? -1 : 0; g->face_cells[2 * f + 1] = in ? 0 : -1; if (in) std::swap(g->face_nodes[3 * f], g->face_nodes[3 * f + 1]); } g->face_nodepos[0] = 0; g->cell_facepos[0] = 0; g->cell_facepos[1] = 4;
    geometry(g); sym_check_eq(g->cell_volumes[0], a * b * c / 6, "cell volume"); sym_check_eq(g->cell_centroids[0], o + a / 4, "cell centroid"); sym_check_eq(g->cell_centroids[1], b / 4, "cell centroid"); sym_check_eq(g->cell_centroids[2], c / 4, "cell centroid");
    sym_check_eq(g->face_areas[0], a * b / 2, "triangle area"); sym_check_eq(g->face_areas[1], a * c / 2, "triangle area"); sym_check_eq(g->face_areas[2], b * c / 2, "triangle area");
    for (int f = 0; f < 4; ++f) for (int d = 0; d < 3; ++d) sym_check_eq(g->face_centroids[3 * f + d], (P[3 * F[3 * f] + d] + P[3 * F[3 * f + 1] + d] + P[3 * F[3 * f + 2] + d]) / 3, "triangle centroid");
    checkDivergence(g);
#endif
    destroy_grid(g);
}
