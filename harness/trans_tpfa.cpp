#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
extern "C" void harness()
{
    const int dim2 = sym_choice("dim", 2);
    struct UnstructuredGrid* g = dim2 ? create_grid_cart2d(2, 1, 1.0, 1.0) : create_grid_cart3d(2, 1, 1);
    const int d = g->dimensions, nc = g->number_of_cells, nf = g->number_of_faces, nh = g->cell_facepos[nc];
    for (int i = 0; i < nc * d; ++i) g->cell_centroids[i] = rvar("cc", i, -100, 100);
    for (int i = 0; i < nf * d; ++i) { g->face_centroids[i] = rvar("fc", i, -100, 100); g->face_normals[i] = rvar("fn", i, -100, 100); }
    std::vector<double> K(nc * d * d), T(nh), mob(nc), TT(nf), E(nf);
    for (int c = 0; c < nc; ++c) { mob[c] = rvar("mob", c, 0, 100); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) K[d * d * c + d * i + j] = j >= i ? rvar("K", d * d * c + d * i + j, -100, 100) : K[d * d * c + d * j + i]; }
    std::vector<double> num(nh), den(nh);
    for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) {
        int f = g->cell_faces[k]; num[k] = den[k] = 0;
        for (int i = 0; i < d; ++i) { double ci = g->face_centroids[d * f + i] - g->cell_centroids[d * c + i], kn = 0; den[k] += ci * ci;
            for (int j = 0; j < d; ++j) kn += K[d * d * c + d * i + j] * g->face_normals[d * f + j]; num[k] += ci * kn; }
        sym_assume_lt(0.0, den[k]);
    }
    tpfa_htrans_compute(g, &K[0], &T[0]);
    for (int k = 0; k < nh; ++k) {
        sym_check_le(0.0, T[k], "one-sided transmissibility is non-negative");
        sym_check_eq(T[k] * T[k] * den[k] * den[k], num[k] * num[k], "one-sided transmissibility is |c.K n|/|c|^2");
    }
    // combination formulas for arbitrary positive one-sided values
    for (int k = 0; k < nh; ++k) T[k] = rvar("T", k, 0, 100);
    for (int k = 0; k < nh; ++k) sym_assume_lt(0.0, T[k]);
    for (int c = 0; c < nc; ++c) sym_assume_lt(0.0, mob[c]);
    tpfa_trans_compute(g, &T[0], &TT[0]);
    tpfa_eff_trans_compute(g, &mob[0], &T[0], &E[0]);
    std::vector<double> r(nf, 0.0), re(nf, 0.0);
    for (int c = 0; c < nc; ++c) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; r[f] += 1 / T[k]; re[f] += 1 / (mob[c] * T[k]); }
    for (int f = 0; f < nf; ++f) { sym_check_eq(TT[f] * r[f], 1.0, "face transmissibility is the series combination"); sym_check_eq(E[f] * re[f], 1.0, "effective transmissibility is the mobility-weighted series combination"); }
    destroy_grid(g);
}
