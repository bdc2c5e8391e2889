// Generic consistency of an unstructured grid: topology tables and divergence theorem.
#ifndef GRIDUTIL_HPP
#define GRIDUTIL_HPP
#include "symutil.hpp"
#include <opm/core/grid.h>
inline void checkTopology(const UnstructuredGrid* g, bool nodes = true)
{
    const int nc = g->number_of_cells, nf = g->number_of_faces, nn = g->number_of_nodes; bool ok = g->cell_facepos[0] == 0 && g->face_nodepos[0] == 0;
    for (int c = 0; c < nc; ++c) { ok = ok && g->cell_facepos[c + 1] > g->cell_facepos[c]; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const int f = g->cell_faces[i]; if (f < 0 || f >= nf) { ok = false; continue; } ok = ok && (g->face_cells[2 * f] == c) != (g->face_cells[2 * f + 1] == c); for (int j = g->cell_facepos[c]; j < i; ++j) ok = ok && g->cell_faces[j] != f; } }
    sym_check(ok, "every face of a cell lists the cell back, once");
    ok = true; std::vector<char> used(nn, 0);
    for (int f = 0; f < nf; ++f) {
        int sides = 0; for (int s = 0; s < 2; ++s) { const int c = g->face_cells[2 * f + s]; if (c == -1) continue; ++sides; if (c < 0 || c >= nc) { ok = false; continue; } int k = 0; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) k += g->cell_faces[i] == f; ok = ok && k == 1; }
        ok = ok && sides >= 1 && g->face_nodepos[f + 1] - g->face_nodepos[f] >= g->dimensions;
        for (int i = g->face_nodepos[f]; i < g->face_nodepos[f + 1]; ++i) { const int n = g->face_nodes[i]; if (n < 0 || n >= nn) { ok = false; continue; } used[n] = 1; for (int j = g->face_nodepos[f]; j < i; ++j) ok = ok && g->face_nodes[j] != n; }
    }
    sym_check(ok, "every cell of a face lists the face back and its nodes are distinct and in range");
    if (!nodes) return;
    ok = true; for (int n = 0; n < nn; ++n) ok = ok && used[n]; sym_check(ok, "no unused node");
}
inline void checkDivergence(const UnstructuredGrid* g, bool positive = true)
{
    const int d = g->dimensions;
    for (int c = 0; c < g->number_of_cells; ++c) {
        double s[3] = { 0, 0, 0 }, v = 0;
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) {
            const int f = g->cell_faces[i]; const bool out = g->face_cells[2 * f] == c; double dot = 0;
            for (int k = 0; k < d; ++k) { const double n = out ? g->face_normals[d * f + k] : -g->face_normals[d * f + k], x = g->face_centroids[d * f + k] - g->cell_centroids[d * c + k]; s[k] += n; dot += n * x; }
            if (positive) sym_check_lt(0.0, dot, "normals point from the first cell to the second"); v += dot;
        }
        for (int k = 0; k < d; ++k) sym_check_eq(s[k], 0.0, "outward area vectors of a cell sum to zero");
        sym_check_eq(g->cell_volumes[c] * d, v, "cell volume is the flux of position through its faces");
    }
    for (int f = 0; f < g->number_of_faces; ++f) {
        double n2 = 0; for (int k = 0; k < d; ++k) n2 += g->face_normals[d * f + k] * g->face_normals[d * f + k];
        sym_check_eq(g->face_areas[f] * g->face_areas[f], n2, "normals are scaled with the face area");
    }
}
#endif
