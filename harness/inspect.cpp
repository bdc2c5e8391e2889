// C49: EclipseGridInspector (PART 0 volumes and indices, 1 limits, 2 dips) and CornerPointChopper (PART 3)
#include "symutil.hpp"
#include <opm/core/io/eclipse/EclipseGridInspector.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/io/eclipse/CornerpointChopper.hpp>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <cstdlib>
#include <unistd.h>
#ifndef PART
#define PART 0
#endif
#ifndef ALONG
#define ALONG 0
#endif
extern "C" int hook_register(double v);
typedef std::vector<double> V; typedef Opm::EclipseGridParser Deck; typedef Opm::EclipseGridInspector Insp;
static void setdims(Deck& d, const int* n, bool dimens)
{
    if (dimens) d.setIntegerField("DIMENS", std::vector<int>(n, n + 3));
    else { std::tr1::shared_ptr<Opm::SPECGRID> s(new Opm::SPECGRID); for (int k = 0; k < 3; ++k) s->dimensions[k] = n[k]; d.setSpecialField("SPECGRID", s); }
}
static size_t zi(const int* n, int i, int j, int k, int c) { return (size_t(2 * k + (c >> 2)) * 2 * n[1] + 2 * j + ((c >> 1) & 1)) * 2 * n[0] + 2 * i + (c & 1); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static std::string txt(double v)
{
    char s[64];
#ifdef SYM_SYMBOLIC
    if (sym_is_term(v)) std::snprintf(s, sizeof s, "%d", hook_register(v)); else
#endif
    std::snprintf(s, sizeof s, "%.17g", v);
    return s;
}
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
    Deck d;
#if PART == 0
    const int dims[5][3] = { { 1, 1, 1 }, { 2, 1, 2 }, { 1, 2, 3 }, { 3, 2, 1 }, { 2, 3, 2 } }; const int* n = dims[sym_choice("size", 5)]; setdims(d, n, sym_choice("DIMENS", 2));
    const int np = (n[0] + 1) * (n[1] + 1), nc = n[0] * n[1] * n[2]; V coord(6 * np); for (int p = 0; p < np; ++p) { coord[6 * p] = coord[6 * p + 3] = rvar("x", p, -4, 4); coord[6 * p + 1] = coord[6 * p + 4] = rvar("y", p, -4, 4); coord[6 * p + 5] = 1; }
    const V z = rvec("z", 8 * nc, -4, 4); d.setFloatingPointField("COORD", coord); d.setFloatingPointField("ZCORN", z);
    const Insp in(d); std::tr1::array<int, 3> sz = in.gridSize(); sym_check(sz[0] == n[0] && sz[1] == n[1] && sz[2] == n[2], "grid size");
    for (int k = 0, c = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i, ++c) {
        std::tr1::array<int, 3> a = in.cellIdxToLogicalCoords(c); sym_check(a[0] == i && a[1] == j && a[2] == k, "logical coordinates of a cell index");
        std::tr1::array<double, 8> cz = in.cellZvals(i, j, k); double thick = 0; for (int q = 0; q < 8; ++q) { const double zz = z[zi(n, i, j, k, q)]; sym_check_eq(cz[q], zz, "corner depths"); thick += (q & 4) ? zz : -zz; }
        const int p0 = j * (n[0] + 1) + i, q[4] = { p0, p0 + 1, p0 + n[0] + 2, p0 + n[0] + 1 }; double area = 0; for (int e = 0; e < 4; ++e) { const double* A = &coord[6 * q[e]]; const double* B = &coord[6 * q[(e + 1) % 4]]; area += 0.5 * (A[0] * B[1] - A[1] * B[0]); }
        sym_check_eq(in.cellVolumeVerticalPillars(i, j, k), area * thick / 4, "volume: base area times mean thickness"); sym_check_eq(in.cellVolumeVerticalPillars(c), area * thick / 4, "volume by cell index");
    }
    sym_check(throws([&] { in.cellVolumeVerticalPillars(n[0], 0, 0); }) && throws([&] { in.cellVolumeVerticalPillars(0, n[1], 0); }) && throws([&] { in.cellVolumeVerticalPillars(0, 0, n[2]); }) && throws([&] { in.cellVolumeVerticalPillars(-1, 0, 0); }) && throws([&] { in.cellDips(0, n[1], 0); }), "coordinates outside the grid are rejected");
    { V bad(coord.begin(), coord.end() - 6); d.setFloatingPointField("COORD", bad); sym_check(throws([&] { in.cellVolumeVerticalPillars(0, 0, 0); }), "COORD of the wrong size is rejected"); d.setFloatingPointField("COORD", coord); }
    { V bad(z.begin(), z.end() - 8); d.setFloatingPointField("ZCORN", bad); sym_check(throws([&] { in.cellVolumeVerticalPillars(0, 0, 0); }) && throws([&] { in.cellZvals(0, 0, 0); }), "ZCORN of the wrong size is rejected"); }
    { Deck e; setdims(e, n, false); e.setFloatingPointField("COORD", coord); sym_check(throws([&] { Insp x(e); }), "deck without ZCORN is rejected"); Deck f; f.setFloatingPointField("COORD", coord); f.setFloatingPointField("ZCORN", z); sym_check(throws([&] { Insp x(f); }), "deck without dimensions is rejected"); }
#elif PART == 1
    // slanted pillars; the coordinates along one axis symbolic
    const int n[3] = { 1, 1, 1 }; setdims(d, n, sym_choice("DIMENS", 2)); V coord(24, 0.0), z(8, 1.0), v[3];
    const int sym_par = sym_choice("half", 2);
    for (int p = 0; p < 4; ++p) for (int e = 0; e < 2; ++e) for (int a = 0; a < 2; ++a) { const double x = a == ALONG && (p + e) % 2 == sym_par ? rvar2("c", p, e, -4, 4) : ((p >> a) & 1) + 0.25 * e - 0.125 * p; coord[6 * p + 3 * e + a] = x; v[a].push_back(x); }
    for (int c = 0; c < 8; ++c) { z[c] = ALONG == 2 && (c & 1) == sym_par ? rvar("z", c, -4, 4) : c * 0.5; v[2].push_back(z[c]); }
    d.setFloatingPointField("COORD", coord); d.setFloatingPointField("ZCORN", z); const Insp in(d); std::tr1::array<double, 6> L = in.getGridLimits();
    for (int a = 0; a < 3; ++a) { double pm = 1, px = 1; for (size_t k = 0; k < v[a].size(); ++k) { sym_check_le(L[2 * a], v[a][k], "no coordinate below the lower limit"); sym_check_le(v[a][k], L[2 * a + 1], "no coordinate above the upper limit"); } bool lo = false, hi = false; for (size_t k = 0; k < v[a].size(); ++k) { lo = lo || !(v[a][k] > L[2 * a] || v[a][k] < L[2 * a]); hi = hi || !(v[a][k] < L[2 * a + 1] || v[a][k] > L[2 * a + 1]); if (lo && hi) break; } sym_check(lo && hi, "limits are attained"); (void)pm; (void)px; }
#elif PART == 2
    // planar layers over a rectangular base: the dips are the slopes of the layers
    const int dims[3][3] = { { 1, 1, 1 }, { 2, 1, 2 }, { 1, 2, 3 } }; const int* n = dims[sym_choice("size", 3)]; setdims(d, n, sym_choice("DIMENS", 2));
    const double sx = sym_real("slope_x", -4, 4), sy = sym_real("slope_y", -4, 4), X[4] = { -1, 0.5, 1.5, 4 }, Y[4] = { 2, 4, 4.5, 6 }, Z[4] = { 0, 1, 1.25, 3 }; V coord, z(8 * n[0] * n[1] * n[2]);
    for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) { const double c[6] = { X[i], Y[j], 0, X[i], Y[j], 1 }; coord.insert(coord.end(), c, c + 6); }
    for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) for (int c = 0; c < 8; ++c) z[zi(n, i, j, k, c)] = Z[k + (c >> 2)] + sx * X[i + (c & 1)] + sy * Y[j + ((c >> 1) & 1)];
    d.setFloatingPointField("COORD", coord); d.setFloatingPointField("ZCORN", z); const Insp in(d);
    const int cell = sym_choice("cell", n[0] * n[1] * n[2]); const std::pair<double, double> dip = in.cellDips(cell); sym_check_eq(dip.first, sx, "x dip is the slope in x"); sym_check_eq(dip.second, sy, "y dip is the slope in y");
    const std::pair<double, double> dip2 = in.cellDips(cell % n[0], cell / n[0] % n[1], cell / (n[0] * n[1])); sym_check_eq(dip2.first, dip.first, "dip by index and by coordinates"); sym_check_eq(dip2.second, dip.second, "dip by index and by coordinates");
#else
    // chopping a sub-box out of a deck file with vertical pillars
    const int n[3] = { 2, 2, 3 }; const int reset = sym_choice("reset to origin", 2), im = sym_choice("imin", 2), ix = sym_choice("whole x", 2) ? (im ? im + 1 : 2) : im + 1, jm = sym_choice("jmin", 2), jx = jm ? 2 : (sym_choice("whole y", 2) ? 2 : 1);
    V coord, z(96); for (int p = 0; p < 9; ++p) { const double x = rvar("x", p, -4, 4), y = rvar("y", p, -4, 4); const double c[6] = { x, y, 0, x, y, 8 }; coord.insert(coord.end(), c, c + 6); }
    // four surfaces, each with two depths
    #ifdef FREEZ
    const double a[4] = { 0.5, sym_real("a1", 2, 2.5), 4.5, 6.25 }, b[4] = { 0.25, 2.25, 4.25, sym_real("b3", 6, 7) };
#else
    const double a[4] = { 0.5, 2, 4.5, 6.25 }, b[4] = { 0.25, 2.25, 4.25, 6.5 };
#endif
    for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) for (int c = 0; c < 8; ++c) z[zi(n, i, j, k, c)] = ((i + (c & 1)) & 1) ? b[k + (c >> 2)] : a[k + (c >> 2)];
    const double z0 = sym_real("zmin", 0, 7), z1 = sym_real("zmax", 0, 7); const V poro = rvec("poro", 12, 0, 1), kx = rvec("permx", 12, 0, 1), ky = rvec("permy", 12, 0, 1), kz = rvec("permz", 12, 0, 1); const int act[12] = { 1, 0, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0 };
    std::ostringstream t; t << "SPECGRID\n2 2 3 1 F /\n"; struct { const char* k; const V* v; } f[6] = { { "COORD", &coord }, { "ZCORN", &z }, { "PORO", &poro }, { "PERMX", &kx }, { "PERMY", &ky }, { "PERMZ", &kz } };
    for (int k = 0; k < 6; ++k) { t << f[k].k << "\n"; for (size_t m = 0; m < f[k].v->size(); ++m) t << txt((*f[k].v)[m]) << (m % 6 == 5 ? "\n" : " "); t << "/\n"; }
    t << "ACTNUM\n"; for (int c = 0; c < 12; ++c) t << act[c] << " "; t << "/\nSATNUM\n"; for (int c = 0; c < 12; ++c) t << c + 1 << " "; t << "/\n";
    char name[] = "/tmp/chopXXXXXX"; const int fd = mkstemp(name); const std::string s = t.str(); if (fd < 0 || write(fd, s.data(), s.size()) != ssize_t(s.size())) sym_stop(); close(fd);
    std::shared_ptr<Opm::CornerPointChopper> ch; try { ch.reset(new Opm::CornerPointChopper(name)); } catch (...) { unlink(name); throw; } unlink(name);
    const double bot = std::max(a[0], b[0]), top = std::min(a[3], b[3]); sym_check_eq(ch->zLimits().first, bot, "highest depth limit of the top surface"); sym_check_eq(ch->zLimits().second, top, "lowest depth of the bottom surface");
    sym_check_eq(ch->abszLimits().first, std::min(a[0], b[0]), "smallest depth"); sym_check_eq(ch->abszLimits().second, std::max(a[3], b[3]), "largest depth");
    const double lo = z0 > bot ? z0 : bot, hi = z1 < top ? z1 : top; bool threw = false; try { ch->chop(im, ix, jm, jx, z0, z1, reset != 0); } catch (const std::runtime_error&) { threw = true; }
    if (lo >= hi) { sym_check(threw, "an empty depth range is rejected"); sym_reach("empty"); return; }
    sym_check(!threw, "a non-empty depth range is accepted"); if (threw) return;
    int k0 = 0, k1 = 2; for (; k0 < 2 && std::max(a[k0 + 1], b[k0 + 1]) <= lo; ++k0) ; for (; k1 > k0 && std::min(a[k1], b[k1]) >= hi; --k1) ;
    const int m[3] = { ix - im, jx - jm, k1 + 1 - k0 }; const int* nd = ch->newDimensions(); sym_check(nd[0] == m[0] && nd[1] == m[1] && nd[2] == m[2], "dimensions: the box and every layer that meets the depth range"); if (nd[0] != m[0] || nd[1] != m[1] || nd[2] != m[2]) return;
    Deck sp = ch->subparser(); sym_check(sp.getSPECGRID().dimensions[0] == m[0] && sp.getSPECGRID().dimensions[1] == m[1] && sp.getSPECGRID().dimensions[2] == m[2], "SPECGRID of the sub-grid");
    const V &C = sp.getFloatingPointValue("COORD"), &Zn = sp.getFloatingPointValue("ZCORN"); sym_check(C.size() == size_t(6 * (m[0] + 1) * (m[1] + 1)) && Zn.size() == size_t(8 * m[0] * m[1] * m[2]), "field sizes"); const int o = jm * 3 + im; const double x0 = reset ? coord[6 * o] : 0, y0 = reset ? coord[6 * o + 1] : 0, zz = reset ? lo : 0;
    for (int j = 0; j <= m[1]; ++j) for (int i = 0; i <= m[0]; ++i) { const double *A = &C[6 * (j * (m[0] + 1) + i)], *B = &coord[6 * ((j + jm) * 3 + i + im)]; for (int e = 0; e < 2; ++e) { sym_check_eq(A[3 * e], B[3 * e] - x0, "pillar x"); sym_check_eq(A[3 * e + 1], B[3 * e + 1] - y0, "pillar y"); } if (!reset) { sym_check_eq(A[2], B[2], "pillar top"); sym_check_eq(A[5], B[5], "pillar bottom"); } else sym_check_lt(A[2], A[5], "pillar not degenerate"); }
    const V &P = sp.getFloatingPointValue("PORO"), &X = sp.getFloatingPointValue("PERMX"), &Y = sp.getFloatingPointValue("PERMY"), &W = sp.getFloatingPointValue("PERMZ"); const std::vector<int> &AC = sp.getIntegerValue("ACTNUM"), &SN = sp.getIntegerValue("SATNUM");
    sym_check(int(P.size()) == m[0] * m[1] * m[2] && AC.size() == P.size() && SN.size() == P.size(), "field sizes");
    for (int k = 0, c = 0; k < m[2]; ++k) for (int j = 0; j < m[1]; ++j) for (int i = 0; i < m[0]; ++i, ++c) {
        const int old = ((k + k0) * 2 + j + jm) * 2 + i + im; sym_check_eq(P[c], poro[old], "PORO of the kept cell"); sym_check_eq(X[c], kx[old], "PERMX of the kept cell"); sym_check_eq(Y[c], ky[old], "PERMY of the kept cell"); sym_check_eq(W[c], kz[old], "PERMZ of the kept cell"); sym_check(AC[c] == act[old] && SN[c] == old + 1, "integer fields of the kept cell");
        for (int q = 0; q < 8; ++q) { const double e = z[zi(n, i + im, j + jm, k + k0, q)], w = e < lo ? lo : e > hi ? hi : e; sym_check_eq(Zn[zi(m, i, j, k, q)], w - zz, "depths are kept, cut to the range"); }
    }
#endif
    sym_reach("end");
}
