// C09 mimetic inner product.  PART 0: symbolic boxes, symbolic tensor; 1: fixed irregular cells, symbolic tensor; 2: gravity, mobility and density updates.
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/pressure/mimetic/mimetic.h>
typedef std::vector<double> V;
#ifndef SHAPE0
#define SHAPE0 0
#endif
static UnstructuredGrid* shape(int s)
{
    UnstructuredGrid* g = DIM == 2 ? create_grid_cart2d(2, 1, 1, 1) : create_grid_hexa3d(2, 1, 1, 1, 1, 1);
    if (PART == 0) { // symbolic box sizes: scale the unit geometry
        double h[3], vol = 1; for (int d = 0; d < DIM; ++d) { h[d] = rvar("h", d, 0.125, 8); vol *= h[d]; }
        for (int c = 0; c < 2; ++c) { g->cell_volumes[c] = vol; for (int d = 0; d < DIM; ++d) g->cell_centroids[DIM * c + d] *= h[d]; }
        for (int f = 0; f < g->number_of_faces; ++f) { int ax = 0; for (int d = 0; d < DIM; ++d) { g->face_centroids[DIM * f + d] *= h[d]; if (g->face_normals[DIM * f + d] != 0) ax = d; } const double a = vol / h[ax]; g->face_areas[f] = a; g->face_normals[DIM * f + ax] *= a; }
        return g;
    }
    // irregular cells with planar faces
    for (int n = 0; n < g->number_of_nodes; ++n) {
        double* x = g->node_coordinates + DIM * n; const double a = x[0], b = x[1], c = DIM == 3 ? x[2] : 0;
        if (s == 0) { x[0] = a + 0.5 * b; } // shear
        else if (s == 1) { x[0] = a * (1 + 0.5 * b); x[1] = 2 * b + 0.25 * c; if (DIM == 3) x[2] = c; } // trapezoids
        else { x[0] = 3 * a - 0.25 * b; x[1] = b + 0.75 * a; if (DIM == 3) { x[2] = 0.5 * c + 0.125 * a + 0.25 * b; } }
    }
    compute_geometry(g); return g;
}
extern "C" void harness()
{
    sym_native_tol(1e-8, 1e-8);
#if PART < 2
    UnstructuredGrid* g = shape(PART == 1 ? SHAPE0 + sym_choice("shape", 3 - SHAPE0) : 0); const int nf = 2 * DIM; V K(2 * DIM * DIM), gr(DIM), Binv(2 * nf * nf);
    const int part = PART == 1 && DIM == 3 ? sym_choice("entries", 2) : 2; // which entries are symbolic
    for (int c = 0; c < 2; ++c) for (int i = 0; i < DIM; ++i) for (int j = 0; j <= i; ++j) if (part != 2 && (i == j) != (part == 0)) K[c * DIM * DIM + i * DIM + j] = K[c * DIM * DIM + j * DIM + i] = i == j ? 2 + i : 0.25 * (i + j); else K[c * DIM * DIM + i * DIM + j] = K[c * DIM * DIM + j * DIM + i] = DIAG && i != j ? 0 : sym_real((nme("K", c) + nme("_", i, j)).c_str(), i == j ? 0.125 : -1, i == j ? 8 : 1);
    mim_ip_simple_all(2, DIM, nf, g->cell_facepos, g->cell_faces, g->face_cells, g->face_centroids, g->face_normals, g->face_areas, g->cell_centroids, g->cell_volumes, &K[0], &Binv[0]);
    const int ax = PART == 1 ? sym_choice("axis", DIM) : 0; for (int d = 0; d < DIM; ++d) gr[d] = PART == 1 ? double(d == ax) : rvar("grad", d, -4, 4); // fluxes are linear in the gradient
    for (int c = 0; c < 2; ++c) {
        const double* B = &Binv[c * nf * nf];
        for (int i = 0; i < nf; ++i) {
            const int f = g->cell_faces[nf * c + i]; const double sgn = g->face_cells[2 * f] == c ? 1 : -1; double flux = 0, want = 0;
            for (int j = 0; j < nf; ++j) { const int fj = g->cell_faces[nf * c + j]; double dp = 0; for (int d = 0; d < DIM; ++d) dp += gr[d] * (g->face_centroids[DIM * fj + d] - g->cell_centroids[DIM * c + d]); flux += B[i + nf * j] * dp; if (j < i) sym_check_eq(B[i + nf * j], B[j + nf * i], "the inner product is symmetric"); }
            for (int d = 0; d < DIM; ++d) for (int e = 0; e < DIM; ++e) want += sgn * g->face_normals[DIM * f + d] * K[c * DIM * DIM + d + DIM * e] * gr[e];
            if (PART == 0) sym_check_eq(flux, want, "fluxes of a linear pressure are exact"); else { sym_check_le(flux, want + 1e-9, "fluxes of a linear pressure are exact"); sym_check_le(want - 1e-9, flux, "fluxes of a linear pressure are exact"); }
        }
        if (PD) { // positive definite: eliminated pivots are positive, the tensor being so
            double det = DIM == 2 ? K[c * 4] * K[c * 4 + 3] - K[c * 4 + 1] * K[c * 4 + 1] : 0; if (DIM == 2) sym_assume_lt(0.0625, det);
            V M(B, B + nf * nf); for (int k = 0; k < nf; ++k) { sym_check_lt(0.0, M[k * nf + k], "the inner product is positive definite"); for (int i = k + 1; i < nf; ++i) for (int j = k + 1; j < nf; ++j) M[i * nf + j] -= M[i * nf + k] * M[k * nf + j] / M[k * nf + k]; }
        }
    }
    sym_reach("computed"); destroy_grid(g);
#else
    UnstructuredGrid* g = DIM == 2 ? create_grid_cart2d(2, 1, 1, 1) : create_grid_hexa3d(2, 1, 1, 1, 1, 1); const int n = g->cell_facepos[2]; V gp(n), gp0 = rvec("gp0", n), om = rvec("om", 2), grav = rvec("g", DIM), mob = rvec("mob", 2);
    for (int i = 0; i < 2 * DIM; ++i) g->cell_centroids[i] = rvar("cc", i); for (int i = 0; i < g->number_of_faces * DIM; ++i) g->face_centroids[i] = rvar("fc", i);
    mim_ip_compute_gpress(2, DIM, &grav[0], g->cell_facepos, g->cell_faces, g->face_centroids, g->cell_centroids, &gp[0]);
    for (int c = 0; c < 2; ++c) for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { double w = 0; for (int d = 0; d < DIM; ++d) w += grav[d] * (g->face_centroids[DIM * g->cell_faces[i] + d] - g->cell_centroids[DIM * c + d]); sym_check_eq(gp[i], w, "gravity pressure difference"); }
    mim_ip_density_update(2, g->cell_facepos, &om[0], &gp0[0], &gp[0]); for (int c = 0; c < 2; ++c) for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) sym_check_eq(gp[i], om[c] * gp0[i], "density scaling");
    const int nf = 2 * DIM, m = nf * nf; V B0 = rvec("B0", 2 * m), B(2 * m); mim_ip_mobility_update(2, g->cell_facepos, &mob[0], &B0[0], &B[0]); for (int i = 0; i < 2 * m; ++i) sym_check_eq(B[i], mob[i / m] * B0[i], "mobility scaling");
    sym_reach("updated"); destroy_grid(g);
#endif
}
