// Stand-ins for the external collaborators of the pressure solvers: fluid properties and linear solver.
#ifndef PRESS_HPP
#define PRESS_HPP
#include "symutil.hpp"
#include <opm/core/grid.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/linalg/LinearSolverInterface.hpp>
#include <opm/core/wells.h>
struct StubIncomp : public Opm::IncompPropertiesInterface
{
    int nc, dim; std::vector<double> poro, K, mu, rho, srho;
    // symdata: how much is symbolic (perm/poro/viscosity/density)
    StubIncomp(int nc_, int dim_) : nc(nc_), dim(dim_), poro(nc_, 0.25), K(nc_ * dim_ * dim_, 0.0), mu(2, 1.0), rho(2, 1.0), srho(2, 1.0)
    {
        for (int c = 0; c < nc; ++c) for (int d = 0; d < dim; ++d) K[c * dim * dim + d * dim + d] = 1.0;
    }
    void symbolicFluid() { for (int p = 0; p < 2; ++p) { mu[p] = rvar("mu", p, 0.125, 8); rho[p] = rvar("rho", p, 0.125, 8); } }
    void symbolicRock() { for (int c = 0; c < nc; ++c) { poro[c] = rvar("poro", c, 0.125, 1); for (int d = 0; d < dim; ++d) K[c * dim * dim + d * dim + d] = rvar2("K", c, d, 0.125, 8); } }
    int numDimensions() const { return dim; } int numCells() const { return nc; }
    const double* porosity() const { return &poro[0]; } const double* permeability() const { return &K[0]; }
    int numPhases() const { return 2; } const double* viscosity() const { return &mu[0]; } const double* density() const { return &rho[0]; } const double* surfaceDensity() const { return &srho[0]; }
    void relperm(const int n, const double* s, const int*, double* kr, double* dk) const
    {
        for (int i = 0; i < 2 * n; ++i) kr[i] = s[i];
        if (dk) for (int i = 0; i < n; ++i) { dk[4 * i] = 1; dk[4 * i + 1] = 0; dk[4 * i + 2] = 0; dk[4 * i + 3] = 1; }
    }
    void capPress(const int n, const double*, const int*, double* pc, double* dpc) const { for (int i = 0; i < 2 * n; ++i) pc[i] = 0; if (dpc) for (int i = 0; i < 4 * n; ++i) dpc[i] = 0; }
    void satRange(const int n, const int*, double* a, double* b) const { for (int i = 0; i < 2 * n; ++i) { a[i] = 0; b[i] = 1; } }
};
// "any exact solution"; keeps a copy of the last system
struct StubLin : public Opm::LinearSolverInterface
{
    mutable std::vector<double> A, b, x; mutable std::vector<int> ia, ja; mutable int calls; const StubLin* same;
    StubLin() : calls(0), same(0) {}
    LinearSolverReport solve(const int n, const int nnz, const int* ia_, const int* ja_, const double* sa, const double* rhs, double* sol) const
    {
        ++calls; ia.assign(ia_, ia_ + n + 1); ja.assign(ja_, ja_ + nnz); A.assign(sa, sa + nnz); b.assign(rhs, rhs + n);
        if (same && sym_is_symbolic()) {   // identical systems have identical solutions
            sym_check(same->ia == ia && same->ja == ja, "linear system structure unchanged");
            for (int i = 0; i < nnz; ++i) sym_check_eq(A[i], same->A[i], "linear system matrix is independent of earlier solves");
            for (int i = 0; i < n; ++i) sym_check_eq(b[i], same->b[i], "linear system right-hand side is independent of earlier solves");
            for (int i = 0; i < n; ++i) sol[i] = same->x[i];
        } else sym_solve(n, ia_, ja_, sa, rhs, sol);
        x.assign(sol, sol + n);
        LinearSolverReport r; r.converged = true; r.iterations = 1; r.residual_reduction = 0; return r;
    }
    using Opm::LinearSolverInterface::solve;
    void setTolerance(const double) {} double getTolerance() const { return 0; }
};
#endif
