// C44: quadrature on box-shaped, sheared and (2D) general convex cells; coefficients symbolic
#include "gridutil.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/CellQuadrature.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>
extern "C" {
#include <opm/core/grid/cpgpreprocess/geometry.h>
}
typedef std::vector<double> V;
static V C; // polynomial coefficients 1, x_i, x_i x_j (i<=j)
static double poly(const double* x, int dim, int deg) { double r = C[0]; int k = 1; if (deg >= 1) for (int i = 0; i < dim; ++i) r += C[k++] * x[i]; if (deg >= 2) for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) r += C[k++] * x[i] * x[j]; return r; }
// exact integral from moments m0, mean, second moments
static double exact(double m0, const V& m1, const std::vector<V>& m2, int dim, int deg) { double r = C[0] * m0; int k = 1; if (deg >= 1) for (int i = 0; i < dim; ++i) r += C[k++] * m1[i]; if (deg >= 2) for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) r += C[k++] * m2[i][j]; return r; }
// moments over a simplex with nv vertices and measure vol
static void simplex(const std::vector<V>& p, double vol, int dim, double& m0, V& m1, std::vector<V>& m2)
{
    const int nv = p.size(); m0 += vol; V s(dim, 0.0); for (int a = 0; a < nv; ++a) for (int i = 0; i < dim; ++i) s[i] += p[a][i];
    for (int i = 0; i < dim; ++i) m1[i] += vol * s[i] / nv;
    for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { double t = s[i] * s[j]; for (int a = 0; a < nv; ++a) t += p[a][i] * p[a][j]; m2[i][j] += vol * t / (nv * (nv + 1)); }
}
static V pt(const double* x, int dim) { return V(x, x + dim); }
template <class Q> static void rule(const Q& q, int dim, int deg, double m0, const V& m1, const std::vector<V>& m2, const char* what)
{
    double sum = 0, w = 0, x[3]; bool pos = true; const std::string W(what);
    for (int i = 0; i < q.numQuadPts(); ++i) { q.quadPtCoord(i, x); const double wt = q.quadPtWeight(i); pos = pos && wt > 0; w += wt; sum += wt * poly(x, dim, deg < 2 ? 1 : deg); }
    const double e = exact(m0, m1, m2, dim, deg < 2 ? 1 : deg), tol = 1e-9 * m0 * 100;
    sym_check(pos, (W + ": positive weights").c_str()); sym_check(std::fabs(w - m0) < 1e-10 * m0, (W + ": weights sum to the measure").c_str());
    sym_check_le(sum, e + tol, (W + ": polynomials integrated exactly").c_str()); sym_check_le(e - tol, sum, (W + ": polynomials integrated exactly").c_str());
}
#ifdef BOX
// axis-aligned boxes of every size and position, exact comparison of every moment up to the degree
static double mom1(double o, double h) { return h * (o + h / 2); }
static double mom2(double o, double h) { return h * (o * o + o * h + h * h / 3); }
template <class Q> static void boxrule(const Q& q, int dim, int deg, const double* o, const double* h, int flat, const char* what)
{
    double x[3]; const int np = q.numQuadPts(); const std::string W(what); const int d0 = deg < 2 ? 1 : deg;
    for (int i = -1; i < dim; ++i) for (int j = i; j < dim; ++j) {      // moments 1, x_j, x_i x_j
        if (d0 < 2 && i >= 0) continue; double s = 0, e = 1;
        for (int k = 0; k < np; ++k) { q.quadPtCoord(k, x); s += q.quadPtWeight(k) * (i < 0 ? 1.0 : x[i]) * (j < 0 ? 1.0 : x[j]); }
        for (int k = 0; k < dim; ++k) { const int n = (i == k) + (j == k); if (k == flat) { for (int m = 0; m < n; ++m) e *= o[k]; } else e *= n == 0 ? h[k] : n == 1 ? mom1(o[k], h[k]) : mom2(o[k], h[k]); }
        sym_check_eq(s, e, (W + ": moments").c_str());
    }
    for (int k = 0; k < np; ++k) { q.quadPtCoord(k, x); sym_check_lt(0.0, q.quadPtWeight(k), (W + ": positive weights").c_str()); for (int d = 0; d < dim; ++d) { sym_check_le(o[d], x[d], (W + ": point inside").c_str()); sym_check_le(x[d], d == flat ? o[d] : o[d] + h[d], (W + ": point inside").c_str()); } }
}
extern "C" void harness()
{
    const int deg = sym_choice("degree", DIM == 2 ? 3 : 2), dim = DIM; UnstructuredGrid* g = DIM == 2 ? create_grid_cart2d(1, 1, 1, 1) : create_grid_cart3d(1, 1, 1); V o = rvec("o", dim, -4, 4), h = rvec("h", dim, 0.25, 4);
    for (int n = 0; n < g->number_of_nodes * dim; ++n) g->node_coordinates[n] = g->node_coordinates[n] > 0.5 ? o[n % dim] + h[n % dim] : o[n % dim];
    compute_face_geometry(dim, g->node_coordinates, g->number_of_faces, g->face_nodepos, g->face_nodes, g->face_normals, g->face_centroids, g->face_areas);
    compute_cell_geometry(dim, g->node_coordinates, g->face_nodepos, g->face_nodes, g->face_cells, g->face_normals, g->face_centroids, g->number_of_cells, g->cell_facepos, g->cell_faces, g->cell_centroids, g->cell_volumes);
    boxrule(Opm::CellQuadrature(*g, 0, deg), dim, deg, &o[0], &h[0], -1, "cell");
    for (int f = 0; f < g->number_of_faces; ++f) { int flat = 0; V oo = o; while (!sym_is_term(g->face_normals[dim * f + flat]) && g->face_normals[dim * f + flat] == 0) ++flat; if (g->face_cells[2 * f] < 0) ; else oo[flat] += h[flat]; boxrule(Opm::FaceQuadrature(*g, f, deg), dim, deg, &oo[0], &h[0], flat, "face"); }
    destroy_grid(g);
}
#else
extern "C" void harness()
{
    const int deg = sym_choice("degree", 3); C = rvec("c", 10, -1, 1);
#if DIM == 2
    const int dim = 2, sh = sym_choice("shape", deg < 2 ? 3 : 5);
    UnstructuredGrid* g = create_grid_cart2d(2, 1, 1, 1); const double P[5][12] = { { 0, 0, 1, 0, 2, 0, 0, 1, 1, 1, 2, 1 }, { -1, 2, 0.5, 2, 3, 2, -1, 2.25, 0.5, 2.25, 3, 2.25 }, { 0, 0, 2, 0.5, 4, 1, 1, 3, 3, 3.5, 5, 4 }, { 0, 0, 2, 0.5, 4, 0, 0.25, 3, 1.5, 2, 3, 2.5 }, { 0, 0, 1, 0, 3, 1, 1, 2, 2, 2, 4, 3 } };
    for (int i = 0; i < 12; ++i) g->node_coordinates[i] = P[sh][i];
    compute_face_geometry(2, g->node_coordinates, g->number_of_faces, g->face_nodepos, g->face_nodes, g->face_normals, g->face_centroids, g->face_areas);
    compute_cell_geometry(2, g->node_coordinates, g->face_nodepos, g->face_nodes, g->face_cells, g->face_normals, g->face_centroids, g->number_of_cells, g->cell_facepos, g->cell_faces, g->cell_centroids, g->cell_volumes);
#else
    const int dim = 3, sh = sym_choice("shape", 4); UnstructuredGrid* g = create_grid_cart3d(2, 1, 1);
    const double M[4][9] = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 2, 0, 0, 0, 0.5, 0, 0, 0, 3 }, { 1, 0, 0.75, 0, 1, 0, 0, 0, 1 }, { 1, 0.25, 0, 0.125, 1, 0.5, 0.25, 0, 2 } }; const double O[3] = { 1, -2, 0.5 };
    for (int n = 0; n < g->number_of_nodes; ++n) { V x = pt(g->node_coordinates + 3 * n, 3); for (int i = 0; i < 3; ++i) g->node_coordinates[3 * n + i] = (sh ? O[i] : 0) + M[sh][3 * i] * x[0] + M[sh][3 * i + 1] * x[1] + M[sh][3 * i + 2] * x[2]; }
    compute_face_geometry(3, g->node_coordinates, g->number_of_faces, g->face_nodepos, g->face_nodes, g->face_normals, g->face_centroids, g->face_areas);
    compute_cell_geometry(3, g->node_coordinates, g->face_nodepos, g->face_nodes, g->face_cells, g->face_normals, g->face_centroids, g->number_of_cells, g->cell_facepos, g->cell_faces, g->cell_centroids, g->cell_volumes);
#endif
    for (int c = 0; c < g->number_of_cells; ++c) {   // exact moments from an independent decomposition about one corner
        double m0 = 0; V m1(dim, 0.0); std::vector<V> m2(dim, m1); const int f0 = g->cell_faces[g->cell_facepos[c]]; const double* o = g->node_coordinates + dim * g->face_nodes[g->face_nodepos[f0]];
        for (int h = g->cell_facepos[c]; h < g->cell_facepos[c + 1]; ++h) { const int f = g->cell_faces[h]; const int* fn = g->face_nodes + g->face_nodepos[f]; const int nn = g->face_nodepos[f + 1] - g->face_nodepos[f];
            for (int t = 0; t + 1 < nn && (dim == 2 || t + 2 < nn); ++t) { std::vector<V> p(1, pt(o, dim)); if (dim == 2) { p.push_back(pt(g->node_coordinates + dim * fn[0], dim)); p.push_back(pt(g->node_coordinates + dim * fn[1], dim)); } else { p.push_back(pt(g->node_coordinates + 3 * fn[0], 3)); p.push_back(pt(g->node_coordinates + 3 * fn[t + 1], 3)); p.push_back(pt(g->node_coordinates + 3 * fn[t + 2], 3)); }
                double vol; V a(dim), b(dim), d(dim); for (int i = 0; i < dim; ++i) { a[i] = p[1][i] - p[0][i]; b[i] = p[2][i] - p[0][i]; if (dim == 3) d[i] = p[3][i] - p[0][i]; }
                if (dim == 2) vol = std::fabs(a[0] * b[1] - a[1] * b[0]) / 2; else vol = std::fabs(a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0])) / 6;
                simplex(p, vol, dim, m0, m1, m2); } }
        Opm::CellQuadrature q(*g, c, deg); rule(q, dim, deg, m0, m1, m2, "cell");
        // every point inside the cell
        double x[3]; bool in = true; for (int i = 0; i < q.numQuadPts(); ++i) { q.quadPtCoord(i, x); for (int h = g->cell_facepos[c]; h < g->cell_facepos[c + 1]; ++h) { const int f = g->cell_faces[h]; double s = 0, t = 0; for (int k = 0; k < dim; ++k) { s += g->face_normals[dim * f + k] * (x[k] - g->face_centroids[dim * f + k]); t += g->face_normals[dim * f + k] * (g->cell_centroids[dim * c + k] - g->face_centroids[dim * f + k]); } in = in && s * t >= -1e-12; } }
        sym_check(in, "cell points inside the cell");
    }
    for (int f = 0; f < g->number_of_faces; ++f) {
        double m0 = 0; V m1(dim, 0.0); std::vector<V> m2(dim, m1); const int* fn = g->face_nodes + g->face_nodepos[f]; const int nn = g->face_nodepos[f + 1] - g->face_nodepos[f];
        for (int t = 0; t + 1 < nn && (dim == 2 || t + 2 < nn); ++t) { std::vector<V> p(1, pt(g->node_coordinates + dim * fn[0], dim)); p.push_back(pt(g->node_coordinates + dim * fn[t + 1], dim)); if (dim == 3) p.push_back(pt(g->node_coordinates + dim * fn[t + 2], dim));
            double vol = 0; V a(dim), b(dim); for (int i = 0; i < dim; ++i) { a[i] = p[1][i] - p[0][i]; if (dim == 3) b[i] = p[2][i] - p[0][i]; }
            if (dim == 2) vol = std::sqrt(a[0] * a[0] + a[1] * a[1]); else { const double u = a[1] * b[2] - a[2] * b[1], v = a[2] * b[0] - a[0] * b[2], w = a[0] * b[1] - a[1] * b[0]; vol = std::sqrt(u * u + v * v + w * w) / 2; }
            simplex(p, vol, dim, m0, m1, m2); }
        rule(Opm::FaceQuadrature(*g, f, deg), dim, deg, m0, m1, m2, "face");
    }
    destroy_grid(g);
}
#endif
