// C22: IncompPropertiesBasic, BlackoilPropertiesBasic and their parts
#include "symutil.hpp"
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/pvt/PvtPropertiesBasic.hpp>
#include <opm/core/props/satfunc/SaturationPropsBasic.hpp>
#include <opm/core/props/rock/RockBasic.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
typedef std::vector<double> V;
typedef Opm::SaturationPropsBasic SB;
static double krRef(int f, double s) { return f == 0 ? 1.0 : f == 1 ? s : s * s; }
static double dkrRef(int f, double s) { return f == 0 ? 0.0 : f == 1 ? 1.0 : 2 * s; }
template <class P> static void relpermChecks(const P& props, int f, int np)
{
    const int n = 2; V s = rvec("s", n * np, 0, 1), kr(n * np, -1.0), kr2(n * np, -1.0), dk(n * np * np, -1.0), pc(n * np, -1.0), dpc(n * np * np, -1.0), lo(n * np, -1.0), hi(n * np, -1.0);
    int cells[2] = { 1, 0 };
    props.relperm(n, &s[0], cells, &kr[0], &dk[0]); props.relperm(n, &s[0], cells, &kr2[0], 0);
    props.capPress(n, &s[0], cells, &pc[0], &dpc[0]); props.satRange(n, cells, &lo[0], &hi[0]);
    for (int i = 0; i < n * np; ++i) {
        sym_check_eq(kr[i], krRef(f, s[i]), "relative permeability"); sym_check_eq(kr2[i], kr[i], "relative permeability without derivatives");
        sym_check_eq(pc[i], 0.0, "capillary pressure is zero"); sym_check_eq(lo[i], 0.0, "smallest saturation"); sym_check_eq(hi[i], 1.0, "largest saturation");
    }
    for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) for (int b = 0; b < np; ++b) {
        sym_check_eq(dk[i * np * np + a + np * b], a == b ? dkrRef(f, s[i * np + a]) : 0.0, "relative permeability derivative");
        sym_check_eq(dpc[i * np * np + a + np * b], 0.0, "capillary pressure derivative is zero");
    }
}
template <class P> static void rockChecks(const P& props, int dim, int nc, double por, double perm)
{
    sym_check(props.numDimensions() == dim && props.numCells() == nc, "rock sizes");
    for (int c = 0; c < nc; ++c) {
        sym_check_eq(props.porosity()[c], por, "porosity");
        for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) sym_check_eq(props.permeability()[(c * dim + i) * dim + j], i == j ? perm : 0.0, "isotropic permeability");
    }
}
extern "C" void harness()
{
    const int dim = 2 + sym_choice("dim", 2), nc = 3, f = sym_choice("func", 3);
    const SB::RelPermFunc fs[3] = { SB::Constant, SB::Linear, SB::Quadratic };
    if (sym_choice("params", 2) == 0) {
        const int np = 1 + sym_choice("np", 2);
        V rho = rvec("rho", np, 0, 10), mu = rvec("mu", np, 0, 10); const double por = sym_real("por", 0, 1), perm = sym_real("perm", 0, 10);
        Opm::IncompPropertiesBasic p(np, fs[f], rho, mu, por, perm, dim, nc);
        rockChecks(p, dim, nc, por, perm); relpermChecks(p, f, np);
        sym_check(p.numPhases() == np, "phases");
        for (int k = 0; k < np; ++k) { sym_check_eq(p.density()[k], rho[k], "density"); sym_check_eq(p.surfaceDensity()[k], rho[k], "surface density"); sym_check_eq(p.viscosity()[k], mu[k], "viscosity"); }
        Opm::PvtPropertiesBasic pvt; pvt.init(np, rho, mu);
        const int n = 2; V pr = rvec("p", n, 0, 10), z = rvec("z", n * np, 0, 10), o(n * np, -1.0), d(n * np, -1.0);
        pvt.mu(n, &pr[0], &z[0], &o[0]); for (int i = 0; i < n * np; ++i) sym_check_eq(o[i], mu[i % np], "viscosity of every cell");
        pvt.B(n, &pr[0], &z[0], &o[0]); for (int i = 0; i < n * np; ++i) sym_check_eq(o[i], 1.0, "formation volume factor");
        pvt.dBdp(n, &pr[0], &z[0], &o[0], &d[0]); for (int i = 0; i < n * np; ++i) { sym_check_eq(o[i], 1.0, "formation volume factor"); sym_check_eq(d[i], 0.0, "formation volume factor derivative"); }
        pvt.R(n, &pr[0], &z[0], &o[0]); for (int i = 0; i < n * np; ++i) sym_check_eq(o[i], 0.0, "dissolution");
        d.assign(n * np, -1.0); pvt.dRdp(n, &pr[0], &z[0], &o[0], &d[0]); for (int i = 0; i < n * np; ++i) { sym_check_eq(o[i], 0.0, "dissolution"); sym_check_eq(d[i], 0.0, "dissolution derivative"); }
    } else {
        if (f == 0) return; const int np = 2; const char* names[3] = { "Constant", "Linear", "Quadratic" };
        Opm::parameter::ParameterGroup param; const bool def = sym_choice("defaults", 2);
        param.disableOutput();
        param.insertParameter("relperm_func", names[f]);
        double mu[2] = { 1, 1 }, rho[2] = { 1000, 1000 }, por = 1.0, perm = 100;
        if (!def) { por = 0.25; perm = 50; mu[0] = 2; mu[1] = 4; rho[0] = 1024; rho[1] = 512;
            param.insertParameter("porosity", "0.25"); param.insertParameter("permeability", "50"); param.insertParameter("mu1", "2"); param.insertParameter("mu2", "4"); param.insertParameter("rho1", "1024"); param.insertParameter("rho2", "512"); }
        Opm::BlackoilPropertiesBasic p(param, dim, nc); Opm::IncompPropertiesBasic q(param, dim, nc);
        const double md = 1e-3 * 9.869233e-13, cp = 1e-3;
        for (int c = 0; c < nc; ++c) { sym_check_eq(p.porosity()[c], por, "porosity parameter"); sym_check_eq(q.porosity()[c], por, "porosity parameter"); sym_check(std::fabs(p.permeability()[c * dim * dim] / (perm * md) - 1) < 1e-6, "permeability parameter in millidarcy"); sym_check(std::fabs(q.permeability()[(c + 1) * dim * dim - 1] / (perm * md) - 1) < 1e-6, "permeability parameter in millidarcy"); }
        const int n = 2; V pr = rvec("p", n, 0, 10), z = rvec("z", n * np, 0, 10), o(n * np, -1.0), A(n * np * np, -1.0), dA(n * np * np, -1.0), r(n * np, -1.0); int cells[2] = { 0, 2 };
        p.viscosity(n, &pr[0], &z[0], cells, &o[0], 0);
        for (int i = 0; i < n * np; ++i) { sym_check(std::fabs(o[i] / (mu[i % np] * cp) - 1) < 1e-9, "viscosity parameter in centipoise"); sym_check(std::fabs(q.viscosity()[i % np] / (mu[i % np] * cp) - 1) < 1e-9, "viscosity parameter in centipoise"); }
        p.matrix(n, &pr[0], &z[0], cells, &A[0], &dA[0]);
        for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) for (int b = 0; b < np; ++b) { sym_check_eq(A[i * 4 + a + 2 * b], a == b ? 1.0 : 0.0, "fluid matrix is the identity"); sym_check_eq(dA[i * 4 + a + 2 * b], 0.0, "fluid matrix is constant"); }
        for (int k = 0; k < np; ++k) { sym_check(std::fabs(p.surfaceDensity()[k] / rho[k] - 1) < 1e-9, "density parameter"); sym_check(std::fabs(q.density()[k] / rho[k] - 1) < 1e-9, "density parameter"); }
        V M = rvec("M", n * 4, -4, 4); p.density(n, &M[0], &r[0]);
        for (int i = 0; i < n; ++i) for (int k = 0; k < np; ++k) sym_check_eq(r[i * np + k], M[i * 4 + 2 * k] * p.surfaceDensity()[0] + M[i * 4 + 2 * k + 1] * p.surfaceDensity()[1], "density is the fluid matrix applied to surface densities");
        relpermChecks(p, f, np); relpermChecks(q, f, np);
    }
}
