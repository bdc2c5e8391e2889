// Arbitrary fluid properties: every value depends on the cell, the phase and the cell's own state.
#ifndef UTILPROPS_HPP
#define UTILPROPS_HPP
#include "symutil.hpp"
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
typedef std::vector<double> V;
struct AnyFluid
{
    int nc, np, dim; V a, b, mu, rho, m0, m1, A0, A1, por, perm;
    AnyFluid(int nc_, int np_) : nc(nc_), np(np_), dim(3), a(rvec("ka", nc_ * np_, 0.125, 2)), b(rvec("kb", nc_ * np_, 0, 2)), mu(rvec("mu", np_, 0.125, 4)), rho(rvec("rho", np_, 0.125, 4)), m0(rvec("m0", nc_ * np_, 0.125, 4)), m1(rvec("m1", np_, 0, 2)), A0(rvec("A0", nc_ * np_ * np_, 0.125, 4)), A1(rvec("A1", np_ * np_, 0, 2)), por(nc_, 0.25), perm(9 * nc_, 1.0) {}
    double kr(int c, int p, double s) const { return a[c * np + p] + b[c * np + p] * s; }
    double visc(int c, int p, double press, const double* z) const { double v = m0[c * np + p] + m1[p] * press; if (z) v += z[p]; return v; }
    double mat(int c, int i, double press) const { return A0[c * np * np + i] + A1[i] * press; }
};
struct AnyIncomp : public Opm::IncompPropertiesInterface
{
    const AnyFluid& f; AnyIncomp(const AnyFluid& f_) : f(f_) {}
    int numDimensions() const { return f.dim; } int numCells() const { return f.nc; }
    const double* porosity() const { return &f.por[0]; } const double* permeability() const { return &f.perm[0]; }
    int numPhases() const { return f.np; } const double* viscosity() const { return &f.mu[0]; } const double* density() const { return &f.rho[0]; } const double* surfaceDensity() const { return &f.rho[0]; }
    void relperm(const int n, const double* s, const int* c, double* kr, double* dk) const { for (int i = 0; i < n; ++i) for (int p = 0; p < f.np; ++p) { kr[i * f.np + p] = f.kr(c[i], p, s[i * f.np + p]); if (dk) for (int q = 0; q < f.np; ++q) dk[(i * f.np + q) * f.np + p] = p == q ? f.b[c[i] * f.np + p] : 0.0; } }
    void capPress(const int n, const double*, const int*, double* pc, double* dpc) const { for (int i = 0; i < f.np * n; ++i) pc[i] = 0; if (dpc) for (int i = 0; i < f.np * f.np * n; ++i) dpc[i] = 0; }
    void satRange(const int n, const int*, double* a, double* b) const { for (int i = 0; i < f.np * n; ++i) { a[i] = 0; b[i] = 1; } }
};
struct AnyBlackoil : public Opm::BlackoilPropertiesInterface
{
    const AnyFluid& f; AnyBlackoil(const AnyFluid& f_) : f(f_) {}
    int numDimensions() const { return f.dim; } int numCells() const { return f.nc; }
    const double* porosity() const { return &f.por[0]; } const double* permeability() const { return &f.perm[0]; }
    int numPhases() const { return f.np; } const double* surfaceDensity() const { return &f.rho[0]; }
    void viscosity(const int n, const double* p, const double* z, const int* c, double* mu, double* d) const { for (int i = 0; i < n; ++i) for (int k = 0; k < f.np; ++k) { mu[i * f.np + k] = f.visc(c[i], k, p[i], z ? z + i * f.np : 0); if (d) d[i * f.np + k] = f.m1[k]; } }
    void matrix(const int n, const double* p, const double*, const int* c, double* A, double* d) const { const int m = f.np * f.np; for (int i = 0; i < n; ++i) for (int k = 0; k < m; ++k) { A[i * m + k] = f.mat(c[i], k, p[i]); if (d) d[i * m + k] = f.A1[k]; } }
    void density(const int n, const double* A, double* r) const { for (int i = 0; i < n; ++i) for (int k = 0; k < f.np; ++k) { r[i * f.np + k] = 0; for (int j = 0; j < f.np; ++j) r[i * f.np + k] += A[i * f.np * f.np + k * f.np + j] * f.rho[j]; } }
    void relperm(const int n, const double* s, const int* c, double* kr, double* dk) const { AnyIncomp(f).relperm(n, s, c, kr, dk); }
    void capPress(const int n, const double* s, const int* c, double* pc, double* dpc) const { AnyIncomp(f).capPress(n, s, c, pc, dpc); }
    void satRange(const int n, const int* c, double* a, double* b) const { AnyIncomp(f).satRange(n, c, a, b); }
};
#endif
