// C17: discontinuous Galerkin bases
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/tof/DGBasis.hpp>
#include <memory>
typedef std::vector<double> V;
extern "C" void harness()
{
    const int dim = DIM, deg = KF ? 1 : sym_choice("degree", 2), multi = KF ? 1 : sym_choice("multilinear", 2), cell = sym_choice("cell", 2);
    UnstructuredGrid* g = dim == 2 ? create_grid_cart2d(2, 1, 1, 1) : create_grid_cart3d(2, 1, 1);
    V xc = rvec("xc", dim, -4, 4), x = rvec("x", dim, -4, 4), y = rvec("y", dim, -4, 4), a = rvec("a", dim + 1, -4, 4);
    for (int d = 0; d < dim; ++d) { g->cell_centroids[dim * cell + d] = xc[d]; g->cell_centroids[dim * (1 - cell) + d] = xc[d] + 17; }
    std::unique_ptr<Opm::DGBasisInterface> b; if (multi) b.reset(new Opm::DGBasisMultilin(*g, deg)); else b.reset(new Opm::DGBasisBoundedTotalDegree(*g, deg));
    const int nb = deg == 0 ? 1 : multi ? 1 << dim : 1 + dim;
    sym_check(b->numBasisFunc() == nb && b->dimensions() == dim && b->degree() == deg, "number of basis functions, dimension and degree"); if (b->numBasisFunc() != nb) return;
    V c = rvec("c", nb, -4, 4), bx(nb), gr(nb * dim, 77.0), t(nb);
    auto f = [&](const V& co, const V& p) { V v(nb, 99.0); b->eval(cell, &p[0], &v[0]); double s = 0; for (int i = 0; i < nb; ++i) s += v[i] * co[i]; return s; };
    sym_check_eq(b->evalFunc(cell, &c[0], &x[0]), f(c, x), "function value is the expansion");
    // gradients
    b->evalGrad(cell, &x[0], &gr[0]);
    for (int i = 0; i < nb; ++i) for (int d = 0; d < dim; ++d) sym_check_eq(gr[i * dim + d], deriv_of([&](const V& p) { V v(nb); b->eval(cell, &p[0], &v[0]); return v[i]; }, x, d), "gradient is the derivative of the value");
    // reproduction of constants and (degree 1) linear functions
    if (multi && deg == 1) { for (int i = 0; i < nb; ++i) { t[i] = a[0]; for (int d = 0; d < dim; ++d) t[i] += a[d + 1] * ((i >> (dim - 1 - d)) & 1 ? 0.5 : -0.5); } } else for (int i = 0; i < nb; ++i) t[i] = a[i];
    double lin = a[0]; if (deg == 1) for (int d = 0; d < dim; ++d) lin += a[d + 1] * (x[d] - xc[d]);
    sym_check_eq(b->evalFunc(cell, &t[0], &x[0]), lin, "constants and linear functions about the cell centre are reproduced");
    // linear independence: values at the corners of a unit box determine the coefficients (multilinear: nodal)
    if (multi && deg == 1) for (int i = 0; i < nb; ++i) { V p(xc); for (int d = 0; d < dim; ++d) p[d] += (i >> (dim - 1 - d)) & 1 ? 0.5 : -0.5; sym_check_eq(f(c, p), c[i], "multilinear coefficients are corner values of the unit box"); }
    // average: mean of values at points mirrored in every coordinate about the centre
    const double avg = b->functionAverage(&c[0]); double m = 0; for (int k = 0; k < (1 << dim); ++k) { V p(xc); for (int d = 0; d < dim; ++d) p[d] += ((k >> d) & 1 ? 1 : -1) * (x[d] - xc[d]); m += f(c, p); }
    sym_check_eq(avg * (1 << dim), m, "cell average of an expansion is its mean over the cell");
    const double inc = sym_real("inc", -4, 4), fac = sym_real("fac", -2, 2);
    V c2(c); b->addConstant(inc, &c2[0]); const bool md = multi && deg == 1;
    sym_check_eq(f(c2, x) - f(c, x), f(c2, y) - f(c, y), "adding a constant changes the expansion by a constant"); sym_check_eq(b->functionAverage(&c2[0]) - avg, f(c2, x) - f(c, x), "adding a constant changes value and average alike");
    if (md == KF) { sym_check_eq(f(c2, x), f(c, x) + inc, md ? "multilinear degree 1: adding a constant adds it at every point" : "adding a constant adds it at every point"); sym_check_eq(b->functionAverage(&c2[0]), avg + inc, md ? "multilinear degree 1: adding a constant adds it to the average" : "adding a constant adds it to the average"); }
    if (md) sym_check_eq((f(c2, x) - f(c, x)) * nb, inc, "adding a constant is proportional to it");   // see known_findings.json
    V c3(c); b->multiplyGradient(fac, &c3[0]); sym_check_eq(b->functionAverage(&c3[0]), avg, "scaling the gradient keeps the average"); sym_check_eq(f(c3, x) - f(c3, y), fac * (f(c, x) - f(c, y)), "scaling the gradient scales every difference");
    destroy_grid(g);
}
