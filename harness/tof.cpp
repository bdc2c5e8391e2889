// C16: finite-volume time-of-flight and tracers
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/tof/TofReorder.hpp>
typedef std::vector<double> V;
static UnstructuredGrid* g; static V flux;
static double out(int c, int i) { const int f = g->cell_faces[i]; return g->face_cells[2 * f] == c ? flux[f] : -flux[f]; }
static int nb(int c, int i) { const int f = g->cell_faces[i]; return g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; }
static std::vector<int> order() // topological order of the flow, empty when it has loops
{
    const int nc = g->number_of_cells; std::vector<int> o; std::vector<char> done(nc, 0);
    for (bool more = true; more;) { more = false; for (int c = 0; c < nc; ++c) { if (done[c]) continue; bool ok = true; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1] && ok; ++i) if (nb(c, i) >= 0 && !done[nb(c, i)] && out(c, i) < 0) ok = false; if (ok) { done[c] = 1; o.push_back(c); more = true; } } }
    return (int)o.size() == nc ? o : std::vector<int>();
}
extern "C" void harness()
{
    g = create_grid_cart2d(NX, NY, 1.0, 1.0); const int nc = g->number_of_cells, nf = g->number_of_faces; flux.assign(nf, 0.0); V bnd(nf, 0.0);
    const bool bc = BND; double tot = 0; int last = -1, nint = 0;
    for (int f = 0; f < nf; ++f) { const int* c = g->face_cells + 2 * f; if (c[0] >= 0 && c[1] >= 0) { if (MULTI && nc == 4 && nint++ > 1) { const double C[3] = { 1, -0.5, 0 }; flux[f] = C[sym_choice(nme("v", f).c_str(), 3)]; } else flux[f] = rvar("v", f, -2, 2); } else if (bc && g->face_normals[2 * f] != 0) { if (last < 0) { last = f; continue; } flux[f] = rvar("b", f, -2, 2); tot += c[0] >= 0 ? flux[f] : -flux[f]; } }
    if (last >= 0) flux[last] = g->face_cells[2 * last] >= 0 ? -tot : tot;  // boundary flow balances
    V src(nc, 0.0), pv = rvec("pv", nc, 0.125, 4), outflow(nc, 0.0); std::vector<int> ord = order(); if (ord.empty()) sym_stop();
    for (int c = 0; c < nc; ++c) { for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const double q = out(c, i); src[c] += q; if (q > 0) outflow[c] += q; } if (src[c] < 0) outflow[c] -= src[c]; sym_assume_le(0.125, outflow[c]); }
#if FREESRC     // time-of-flight alone also holds for fluxes that are not divergence free
    { double s = 0; for (int c = 0; c < nc; ++c) { outflow[c] -= src[c] < 0 ? -src[c] : 0.0; src[c] = c + 1 < nc ? rvar("q", c, -2, 2) : -s; s += src[c]; if (src[c] < 0) outflow[c] -= src[c]; sym_assume_le(0.125, outflow[c]); } }
#endif
    Opm::TofReorder tr(*g, MULTI != 0); V tof(1, 99.0), tc(3, 42.0);
#if MULTI
    tr.solveTof(&flux[0], &pv[0], &src[0], tof); V ft(nf, 0.0);
    for (int k = 0; k < nc; ++k) { const int c = ord[k]; double lhs = src[c] < 0 ? -src[c] * tof[c] : 0.0, rhs = pv[c];
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const int f = g->cell_faces[i]; const double q = out(c, i); if (q < 0) rhs -= q * ft[f]; }
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const int f = g->cell_faces[i]; const double q = out(c, i); if (!(q > 0)) continue;
            const int d = g->face_normals[2 * f] != 0 ? 0 : 1; double t = 0; for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { const int h = g->cell_faces[j]; if ((g->face_normals[2 * h] != 0 ? 0 : 1) == d) continue; const double in = -out(c, j); const double w = in > 0 ? in / (in + q) : 0.0; t += 0.5 * (w * ft[h] + (1 - w) * tof[c]); }
            ft[f] = t; lhs += q * t; }
        sym_check_eq(lhs, rhs, "multidimensional upwind time-of-flight balance"); if (nc < 4) sym_check_lt(0.0, tof[c], "time-of-flight is positive"); }
#else
    auto check = [&](const V& t) { sym_check((int)t.size() == nc, "one value per cell"); for (int c = 0; c < nc; ++c) { double rhs = pv[c]; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (nb(c, i) >= 0 && out(c, i) < 0) rhs -= out(c, i) * t[nb(c, i)]; sym_check_eq(outflow[c] * t[c], rhs, "outflow times time-of-flight is pore volume plus inflow times upstream value"); } };
    tr.solveTof(&flux[0], &pv[0], &src[0], tof); check(tof);
#if !FREESRC
    V tof2; tr.solveTofTracer(&flux[0], &pv[0], &src[0], tof2, tc); check(tof2); std::vector<int> head; for (int c = 0; c < nc; ++c) if (src[c] > 0) head.push_back(c); const int nt = head.size();
    sym_check((int)tc.size() == nt * nc, "one concentration per cell and source");
    for (int t = 0; t < nt; ++t) for (int c = 0; c < nc; ++c) { const double x = tc[c * nt + t]; sym_check_le(0.0, x, "concentration is not negative");
        if (src[c] > 0) sym_check_eq(x, c == head[t] ? 1.0 : 0.0, "source cells carry their own tracer");
        else { double rhs = 0; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (nb(c, i) >= 0 && out(c, i) < 0) rhs -= out(c, i) * tc[nb(c, i) * nt + t]; sym_check_eq(outflow[c] * x, rhs, "tracer balance"); } }
    for (int c = 0; c < nc; ++c) { double s = 0; for (int t = 0; t < nt; ++t) s += tc[c * nt + t]; if (nt) { sym_check_le(s, 1.0, "concentrations sum to at most one"); if (!bc) sym_check_eq(s, 1.0, "concentrations sum to one without boundary inflow"); } }
    V tof3(2, 1.0); tr.solveTof(&flux[0], &pv[0], &src[0], tof3); check(tof3);
#endif
#endif
    destroy_grid(g);
}
