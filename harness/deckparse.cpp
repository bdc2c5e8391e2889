// C50: the real text parser on deck texts whose numbers are symbolic.
// PART 0 vector keywords, 1 tables, 2 schedule, 3 polymer and endpoint tables, 4 defaults and record layout, 5 reading again
#include "symutil.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <iostream>
#include <sstream>
#include <stdexcept>
#ifndef PART
#define PART 0
#endif
extern "C" int hook_register(double v);
typedef std::vector<double> V; typedef Opm::EclipseGridParser Deck;
// the deck's unit families, from the published definitions of the units
struct Fam { double len, time, dens, pdens, pres, visc, perm, ls, lr, gs, gr, trans; };
static Fam family(int f)
{
    Fam u; u.time = 86400; u.visc = 1e-3; u.perm = 9.869232667160130e-16;
    if (!f) { u.len = 1; u.dens = u.pdens = 1; u.pres = 1e5; u.ls = u.lr = u.gs = u.gr = 1; u.trans = 1e-3 / (86400 * 1e5); }
    else { const double ft = 0.3048, stb = 0.158987294928, lb = 0.45359237, psi = 6894.757293168361; u.len = ft; u.dens = lb / (ft * ft * ft); u.pdens = lb / stb; u.pres = psi; u.ls = u.lr = u.gr = stb; u.gs = 1000 * ft * ft * ft; u.trans = 1e-3 * stb / (86400 * psi); }
    return u;
}
struct Num { double v, b; std::string t; operator std::string() const { return t; } };
static std::string operator+(const std::string& s, const Num& n) { return s + n.t; }
static std::string operator+(const Num& n, const std::string& s) { return n.t + s; }
static std::string operator+(const char* s, const Num& n) { return s + n.t; }
static std::string operator+(const Num& n, const char* s) { return n.t + s; }
static Num num(const std::string& name, double lo = 0.0625, double hi = 4)
{
    Num n; n.v = sym_real(name.c_str(), lo, hi); n.b = std::max(std::fabs(lo), std::fabs(hi)); char s[64];
#ifdef SYM_SYMBOLIC
    std::snprintf(s, sizeof s, "%d", hook_register(n.v));
#else
    std::snprintf(s, sizeof s, "%.17g", n.v);
#endif
    n.t = s; return n;
}
typedef std::vector<Num> NV;
static NV nums(const std::string& name, int n, double lo = 0.0625, double hi = 4) { NV v; for (int i = 0; i < n; ++i) v.push_back(num(name + " " + nme("", i), lo, hi)); return v; }
static bool conv; static Fam U;
static void ck(double a, double raw, double bound, double unit, const std::string& what)
{
    if (!conv) { sym_check_eq(a, raw, what.c_str()); return; }
    const double e = raw * unit, t = 1e-7 * bound * unit; sym_check_le(a - e, t, what.c_str()); sym_check_le(e - a, t, what.c_str());
}
static void ck(double a, const Num& n, double unit, const std::string& what) { ck(a, n.v, n.b, unit, what); }
static int LAY;
static std::string sep() { return LAY == 0 ? " " : LAY == 1 ? "\n-- 11 12 13 comment\n  -- another one\n" : "   \n\t "; }
static std::string fin() { return LAY == 0 ? " /\n" : LAY == 1 ? "\n/ text after the slash\n-- 99 a comment\n" : "  / \n\n"; }
static std::string cmt() { return LAY == 1 ? "-- comment 5 6 7 /\n--\n" : LAY == 2 ? "\n   " : ""; }
static std::string list(const NV& v, size_t from = 0, size_t to = 1000) { std::string s; for (size_t i = from; i < std::min(to, v.size()); ++i) s += (i > from ? sep() : std::string()) + v[i]; return s; }
static void parse(Deck& d, const std::string& text) { std::istringstream is(text); d.read(is, conv); }
static void len(size_t a, size_t b, const std::string& what) { sym_check(a == b, (what + ": number of values").c_str()); if (a != b) sym_stop(); }
static bool has(const Deck& d, const char* k) { sym_check(d.hasField(k), (std::string(k) + " is found").c_str()); return d.hasField(k); }
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
    const int fam = sym_choice("unit family", 2); conv = sym_choice("convert", 2); U = family(fam); LAY = sym_choice("layout", 3);
    std::string T = std::string("RUNSPEC\n") + (fam ? "FIELD\n" : sym_choice("METRIC named", 2) ? "METRIC\n" : "");
    const double P = U.pres, iP = 1 / U.pres, LR = U.lr / U.ls, GR = U.gr / U.gs, RSF = U.gs / U.ls;
    Deck d;
#if PART == 0
    struct K { const char* k; double u; int skip; } keys[] = { { "COORD", U.len, 0 }, { "ZCORN", U.len, 0 }, { "DXV", U.len, 0 }, { "DYV", U.len, 0 }, { "DZV", U.len, 0 }, { "DEPTHZ", U.len, 0 }, { "TOPS", U.len, 0 },
        { "PERMX", U.perm, 0 }, { "PERMY", U.perm, 0 }, { "PERMZ", U.perm, 0 }, { "PERMXX", U.perm, 0 }, { "PERMYY", U.perm, 0 }, { "PERMZZ", U.perm, 0 }, { "PERMXY", U.perm, 0 }, { "PERMYZ", U.perm, 0 }, { "PERMZX", U.perm, 0 },
        { "PORO", 1, 0 }, { "MULTPV", 1, 0 }, { "SGAS", 1, 0 }, { "SWAT", 1, 0 }, { "SOIL", 1, 0 }, { "RS", RSF, 0 }, { "SWCR", 1, 0 }, { "SWL", 1, 0 }, { "SWU", 1, 0 }, { "SOWCR", 1, 0 }, { "KRW", 1, 0 }, { "KRWR", 1, 0 }, { "KRO", 1, 0 }, { "KRORW", 1, 0 },
        { "PRESSURE", P, 0 } };
    const int n = sizeof keys / sizeof keys[0]; std::vector<NV> v(n);
    T += "GRID\nACTNUM\n" + cmt() + " 2*1" + sep() + "0 3*1" + fin() + "SATNUM\n 1 2*2" + fin() + "UNKNOWNK\n 5 6 7 /\n" + cmt();
    for (int i = 0; i < n; ++i) { v[i] = nums(keys[i].k, 4, -4, 4); T += std::string(keys[i].k) + (LAY == 2 ? "   trailing words\n" : "\n") + cmt() + v[i][0] + sep() + "3*" + v[i][1] + sep() + v[i][2] + " 1*" + v[i][3] + fin(); if (i == 5) T += "NOECHO\n" + cmt(); }
    parse(d, T);
    const int act[6] = { 1, 1, 0, 1, 1, 1 }; if (has(d, "ACTNUM")) { len(d.getIntegerValue("ACTNUM").size(), 6, "ACTNUM"); for (int i = 0; i < 6; ++i) sym_check(d.getIntegerValue("ACTNUM")[i] == act[i], "ACTNUM values"); }
    if (has(d, "SATNUM")) { const std::vector<int>& s = d.getIntegerValue("SATNUM"); len(s.size(), 3, "SATNUM"); sym_check(s[0] == 1 && s[1] == 2 && s[2] == 2, "SATNUM values"); }
    for (int i = 0; i < n; ++i) {
        const std::string w = std::string(keys[i].k) + " value"; if (!has(d, keys[i].k)) continue; const V& a = d.getFloatingPointValue(keys[i].k); len(a.size(), 6, keys[i].k);
        const int src[6] = { 0, 1, 1, 1, 2, 3 }; for (int k = 0; k < 6; ++k) ck(a[k], v[i][src[k]], keys[i].u, w);
    }
    sym_check(!d.hasField("PERMYX") && !d.hasField("NTG"), "absent keywords are not found"); sym_check(d.hasField("FIELD") == (fam == 1), "FIELD found exactly when given"); sym_check(d.numberOfEpochs() == 1, "one epoch without schedule");
    if (conv) { d.convertToSI(); ck(d.getFloatingPointValue("PRESSURE")[0], v[n - 1][0], P, "PRESSURE converted once"); ck(d.getFloatingPointValue("COORD")[1], v[0][1], U.len, "COORD converted once"); }
    // malformed numeric data is rejected
    bool threw = false; Deck e; try { parse(e, "PORO\n 0.1 0.2 abc 0.3 /\n"); } catch (const std::exception&) { threw = true; } sym_check(threw, "text in numeric data is rejected");
    threw = false; Deck f; try { parse(f, "PORO\n 0.1 0.2\n"); } catch (const std::exception&) { threw = true; } sym_check(threw, "data without terminating slash is rejected");
#elif PART == 1
    NV o1 = nums("PVDO a", 6), o2 = nums("PVDO b", 3), g1 = nums("PVDG", 6), rt = nums("ROCKTAB", 6), de = nums("DENSITY", 3), d2 = nums("DENSITY b", 3), w5 = nums("PVTW", 5), w4 = nums("PVTW b", 4), c5 = nums("PVCDO", 5), c4 = nums("PVCDO b", 4), rk = nums("ROCK", 2), r2 = nums("ROCK b", 2), eq = nums("EQUIL", 6, -4, 4);
    const int eqi = sym_choice("EQUIL items", 3); NV to = nums("PVTO", 15), tg = nums("PVTG", 14), t2 = nums("PVTO b", 4), sw = nums("SWOF", 10, 0.0625, 0.9375), sg = nums("SGOF", 8, 0.0625, 0.9375); const Num pc = num("SWOF pc", -4, 4);
    T += "PROPS\nPVDO\n" + cmt() + list(o1, 0, 3) + sep() + list(o1, 3) + fin() + list(o2) + fin() + "PVDG\n" + list(g1) + fin();
    T += "PVTO\n" + cmt() + list(to, 0, 7) + fin() + list(to, 7, 11) + fin() + list(to, 11, 15) + fin() + "/\n" + list(t2) + fin() + "/\n";
    T += "PVTG\n" + list(tg, 0, 7) + fin() + list(tg, 7, 14) + fin() + "/\n";
    T += "PVTW\n" + list(w5) + fin() + list(w4) + fin() + "PVCDO\n" + cmt() + list(c5) + fin() + list(c4) + fin() + "ROCK\n" + list(rk) + fin() + list(r2) + fin() + "ROCKTAB\n" + list(rt) + fin() + "DENSITY\n" + list(de) + fin() + list(d2) + fin();
    T += "SWOF\n" + cmt() + "0.0 " + sw[0] + sep() + sw[1] + " " + pc + "\n0.25 1* " + sw[2] + " 1* \n0.5 1* " + sw[3] + " " + sw[4] + "\n1.0 " + sw[5] + " 1* " + sw[6] + "\n1.25 " + sw[7] + " " + sw[8] + " " + sw[9] + fin();
    T += "SGOF\n0.0 " + sg[0] + " " + sg[1] + " 1*\n0.5" + sep() + sg[2] + " 1* 1*\n1.0 " + sg[3] + " " + sg[4] + " 1*" + fin() + "0.0 " + sg[5] + " 1 1*\n 1.0" + sep() + sg[6] + " 0 " + sg[7] + fin();
    T += "SOLUTION\nEQUIL\n" + cmt() + list(eq) + (eqi ? (eqi == 1 ? " 1 2 3" : " 1 5*") + fin() : fin()) + "SCHEDULE\n";
    parse(d, T);
    if (has(d, "PVDO")) { const Opm::SpecialBase::table_t& t = d.getPVDO().pvdo_; len(t.size(), 2, "PVDO tables"); len(t[0].size(), 3, "PVDO columns"); len(t[0][0].size(), 2, "PVDO rows"); len(t[1][0].size(), 1, "PVDO rows"); const double u[3] = { P, LR, U.visc }; for (int c = 0; c < 3; ++c) { for (int r = 0; r < 2; ++r) ck(t[0][c][r], o1[3 * r + c], u[c], "PVDO"); ck(t[1][c][0], o2[c], u[c], "PVDO second table"); } }
    if (has(d, "PVDG")) { const Opm::SpecialBase::table_t& t = d.getPVDG().pvdg_; len(t.size(), 1, "PVDG tables"); len(t[0][0].size(), 2, "PVDG rows"); const double u[3] = { P, GR, U.visc }; for (int c = 0; c < 3; ++c) for (int r = 0; r < 2; ++r) ck(t[0][c][r], g1[3 * r + c], u[c], "PVDG"); }
    if (has(d, "PVTO")) { const Opm::SpecialBase::table_t& t = d.getPVTO().pvto_; len(t.size(), 2, "PVTO tables"); len(t[0].size(), 3, "PVTO records"); len(t[0][0].size(), 7, "PVTO record"); len(t[0][1].size(), 4, "PVTO record"); len(t[0][2].size(), 4, "PVTO record"); len(t[1].size(), 1, "PVTO records"); const double u[7] = { RSF, P, LR, U.visc, P, LR, U.visc }; for (int k = 0; k < 7; ++k) ck(t[0][0][k], to[k], u[k], "PVTO undersaturated record"); for (int k = 0; k < 4; ++k) { ck(t[0][1][k], to[7 + k], u[k], "PVTO record"); ck(t[0][2][k], to[11 + k], u[k], "PVTO record"); ck(t[1][0][k], t2[k], u[k], "PVTO second table"); } }
    if (has(d, "PVTG")) { const Opm::SpecialBase::table_t& t = d.getPVTG().pvtg_; len(t.size(), 1, "PVTG tables"); len(t[0].size(), 2, "PVTG records"); len(t[0][0].size(), 7, "PVTG record"); const double u[7] = { P, 1 / RSF, GR, U.visc, 1 / RSF, GR, U.visc }; for (int r = 0; r < 2; ++r) for (int k = 0; k < 7; ++k) ck(t[0][r][k], tg[7 * r + k], u[k], "PVTG"); }
    const double wu[5] = { P, LR, iP, U.visc, iP };
    if (has(d, "PVTW")) { const std::vector<V>& t = d.getPVTW().pvtw_; len(t.size(), 2, "PVTW records"); len(t[0].size(), 5, "PVTW"); len(t[1].size(), 5, "PVTW"); for (int k = 0; k < 5; ++k) { ck(t[0][k], w5[k], wu[k], "PVTW"); if (k < 4) ck(t[1][k], w4[k], wu[k], "PVTW"); } sym_check_eq(t[1][4], 0, "PVTW default viscosibility"); }
    if (has(d, "PVCDO")) { const std::vector<V>& t = d.getPVCDO().pvcdo_; len(t.size(), 2, "PVCDO records"); len(t[0].size(), 5, "PVCDO"); len(t[1].size(), 5, "PVCDO"); for (int k = 0; k < 5; ++k) { ck(t[0][k], c5[k], wu[k], "PVCDO"); if (k < 4) ck(t[1][k], c4[k], wu[k], "PVCDO"); } sym_check_eq(t[1][4], 0, "PVCDO default viscosibility"); }
    if (has(d, "ROCK")) { const std::vector<V>& t = d.getROCK().rock_compressibilities_; len(t.size(), 2, "ROCK records"); ck(t[0][0], rk[0], P, "ROCK pressure"); ck(t[0][1], rk[1], iP, "ROCK compressibility"); ck(t[1][0], r2[0], P, "ROCK pressure"); ck(t[1][1], r2[1], iP, "ROCK compressibility"); }
    if (has(d, "ROCKTAB")) { const Opm::SpecialBase::table_t& t = d.getROCKTAB().rocktab_; len(t.size(), 1, "ROCKTAB tables"); len(t[0][0].size(), 2, "ROCKTAB rows"); for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) ck(t[0][c][r], rt[3 * r + c], c ? 1 : P, "ROCKTAB"); }
    if (has(d, "DENSITY")) { const std::vector<V>& t = d.getDENSITY().densities_; len(t.size(), 2, "DENSITY records"); for (int k = 0; k < 3; ++k) { ck(t[0][k], de[k], U.dens, "DENSITY"); ck(t[1][k], d2[k], U.dens, "DENSITY"); } }
    if (has(d, "SWOF")) {
        const Opm::SpecialBase::table_t& t = d.getSWOF().swof_; len(t.size(), 1, "SWOF tables"); len(t[0].size(), 4, "SWOF columns"); len(t[0][0].size(), 5, "SWOF rows");
        const double s[5] = { 0, 0.25, 0.5, 1.0, 1.25 }; for (int r = 0; r < 5; ++r) sym_check_eq(t[0][0][r], s[r], "SWOF saturations");
        const double krw[5] = { sw[0].v, sw[0].v + (sw[5].v - sw[0].v) * 0.25, sw[0].v + (sw[5].v - sw[0].v) * 0.5, sw[5].v, sw[7].v }; for (int r = 0; r < 5; ++r) ck(t[0][1][r], krw[r], 1, 1, "SWOF water relative permeability");
        const double kro[5] = { sw[1].v, sw[2].v, sw[3].v, sw[3].v + (sw[8].v - sw[3].v) * 0.5 / 0.75, sw[8].v }; for (int r = 0; r < 5; ++r) { if (!conv && r == 3) { sym_check_le(t[0][2][r] - kro[r], 1e-12, "SWOF oil relative permeability"); sym_check_le(kro[r] - t[0][2][r], 1e-12, "SWOF oil relative permeability"); } else ck(t[0][2][r], kro[r], 1, 1, "SWOF oil relative permeability"); }
        const double pcw[5] = { pc.v, pc.v + (sw[4].v - pc.v) * 0.5, sw[4].v, sw[6].v, sw[9].v }; for (int r = 0; r < 5; ++r) ck(t[0][3][r], pcw[r], 4, P, "SWOF capillary pressure");
    }
    if (has(d, "SGOF")) { const Opm::SpecialBase::table_t& t = d.getSGOF().sgof_; len(t.size(), 2, "SGOF tables"); len(t[0][0].size(), 3, "SGOF rows"); len(t[1][0].size(), 2, "SGOF rows"); for (int r = 0; r < 3; ++r) sym_check_eq(t[0][3][r], 0, "SGOF capillary pressure defaulted"); ck(t[0][1][0], sg[0], 1, "SGOF"); ck(t[0][1][1], sg[2], 1, "SGOF"); ck(t[0][1][2], sg[3], 1, "SGOF"); ck(t[0][2][0], sg[1], 1, "SGOF"); ck(t[0][2][1], 0.5 * (sg[1].v + sg[4].v), 1, 1, "SGOF interpolated"); ck(t[0][2][2], sg[4], 1, "SGOF"); ck(t[1][1][0], sg[5], 1, "SGOF second table"); ck(t[1][1][1], sg[6], 1, "SGOF second table"); ck(t[1][3][1], sg[7], P, "SGOF second table pc"); ck(t[1][3][0], sg[7], P, "SGOF column with a single value"); }
    if (has(d, "EQUIL")) { const std::vector<Opm::EquilLine>& t = d.getEQUIL().equil; len(t.size(), 1, "EQUIL records"); ck(t[0].datum_depth_, eq[0], U.len, "EQUIL datum depth"); ck(t[0].datum_depth_pressure_, eq[1], P, "EQUIL datum pressure"); ck(t[0].water_oil_contact_depth_, eq[2], U.len, "EQUIL water-oil contact"); ck(t[0].oil_water_cap_pressure_, eq[3], P, "EQUIL pcow"); ck(t[0].gas_oil_contact_depth_, eq[4], U.len, "EQUIL gas-oil contact"); ck(t[0].gas_oil_cap_pressure_, eq[5], P, "EQUIL pcog"); }
#elif PART == 2 || PART == 4
    // schedule keywords; PART 4 leaves out items that have defaults
    const double LQ = U.ls / U.time, GQ = U.gs / U.time, RQ = U.lr / U.time; const int D4 = PART == 4 ? sym_choice("defaults", 4) : 0;
    const Num bhp = num("WELSPECS depth"), cf = num("COMPDAT transmissibility"), dia = num("COMPDAT diameter"), dia2 = num("COMPDAT diameter 2"); NV inj = nums("WCONINJE", 5), pro = nums("WCONPROD", 7), gi = nums("GCONINJE", 4), gp = nums("GCONPROD", 5), gu = nums("WGRUPCON", 2), wt = nums("WELTARG", 6), ts = nums("TSTEP", 5), wp = nums("WPOLYMER", 2), rate2 = nums("later", 3);
    const std::string itype = sym_choice("injector type", 2) ? "GAS" : "WATER"; const char* Q = LAY == 1 ? "'" : "";
    std::string start = PART == 2 && sym_choice("START given", 2) ? "START\n" + cmt() + " 1 'MAR' 1990 /\n" : ""; T += start + "SPECGRID\n" + (D4 & 1 ? " 3 4 2 /\n" : " 3 4 2 1 F /\n") + "DXV\n 3*" + rate2[2] + fin() + "SCHEDULE\n";
    T += "WELSPECS\n" + cmt() + Q + "INJ" + Q + "  'G1' 3 4 " + bhp + " " + Q + "WATER" + Q + " 1* STD / \n" + cmt() + "'PROD' 'G2' " + (D4 & 2 ? "2 1 1* 'OIL' /\n" : "2 1 " + bhp + " 'OIL' /\n") + cmt() + "/\n";
    T += "COMPDAT\n" + cmt() + "'INJ' 3 4 1 2 'OPEN' " + (D4 == 1 ? "2* " + dia : D4 == 2 ? "1* 1* " + dia : D4 == 3 ? "2 1* " + dia + " 5*" : "2 " + cf + sep() + dia + " -1 0 / ignored") + " / \n" + cmt() + "'PROD' 2 1 1 1 OPEN " + (D4 == 3 ? "1*" : "0") + " " + cf + (D4 == 3 ? " 6* /\n" : " " + dia2 + " /\n") + (D4 == 1 ? "'PROD' 2 1 2 2 OPEN /\n" : "") + cmt() + "/\n";
    T += "WCONINJE\n" + cmt() + "'INJ' '" + itype + "' 'OPEN' 'RATE' " + (D4 == 1 ? inj[0] + " /\n" : D4 == 2 ? inj[0] + " 1* " + inj[2] + "/\n" : D4 == 3 ? "2* " + inj[2] + " 8* /\n" : list(inj, 0, 4) + " 3 " + inj[4] + " /\n") + cmt() + "/\n";
    T += "WCONPROD\n" + cmt() + "'PROD' 'OPEN' 'ORAT' " + (D4 == 1 ? pro[0] + " /\n" : D4 == 2 ? pro[0] + " 4* " + pro[5] + " /\n" : D4 == 3 ? "5* " + pro[5] + " 20* /\n" : list(pro) + " 2 0.5 /\n") + cmt() + "'P2' SHUT 'BHP' 5* " + pro[6] + " /\n" + cmt() + "/\n";
    T += "GRUPTREE\n" + cmt() + " 'G1' 'FIELD' /\n" + cmt() + " G2 G1 /\n" + cmt() + "/\nGCONINJE\n" + cmt() + "'G1' '" + itype + "' 'RATE' " + (D4 == 1 ? gi[0] + " /\n" : D4 == 2 ? "1* " + gi[1] + " /\n" : D4 == 3 ? gi[0] + " 1* " + gi[2] + " 5* /\n" : list(gi) + " /\n") + cmt() + "/\n";
    T += "GCONPROD\n" + cmt() + "'G2' 'ORAT' " + (D4 == 1 ? gp[0] + " /\n" : D4 == 2 ? gp[0] + " 10* " + gp[4] + " /\n" : D4 == 3 ? list(gp, 0, 4) + " 'RATE' 1* 1* 1* 1* 1* 1* " + gp[4] + " /\n" : list(gp, 0, 4) + " 'RATE' 'YES' 5* " + gp[4] + " /\n") + cmt() + "/\n";
    T += "WGRUPCON\n" + cmt() + "'INJ' YES " + gu[0] + (D4 & 1 ? " /\n" : " 'RAT' /\n") + cmt() + "'PROD' NO " + gu[1] + " 'OIL' 1.0 /\n" + cmt() + "/\n";
    T += "WPOLYMER\n" + cmt() + "'INJ' " + wp[0] + (D4 & 2 ? " /\n" : " " + wp[1] + " /\n") + cmt() + "/\n";
    T += "TSTEP\n" + cmt() + list(ts, 0, 2) + " 2*" + ts[2] + fin();
    // second epoch
    const char* item[6] = { "ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP" }; T += "WELTARG\n" + cmt(); for (int k = 0; k < 6; ++k) T += std::string("'PROD' '") + item[k] + "' " + wt[k] + " /\n" + cmt(); T += "/\nWELOPEN\n" + cmt() + "'PROD' 'SHUT' /\n" + cmt() + "/\nWCONINJE\n'INJ' 'WATER' 'OPEN' 'RATE' " + rate2[0] + " /\n/\nTSTEP\n" + ts[3] + fin();
    // third epoch; dates follow the time steps
    T += "WELOPEN\n'PROD' 'OPEN' /\n/\nDATES\n" + cmt() + " 11 'APR' " + (start.empty() ? "1983" : "1990") + " /\n" + cmt() + " 1 JUL " + (start.empty() ? "1983" : "1990") + " /\n" + cmt() + "/\nEND\n";
    parse(d, T);
    sym_check(d.numberOfEpochs() == 3, "a new epoch begins with the first keyword after time steps"); if (d.numberOfEpochs() != 3) return;
    if (has(d, "SPECGRID")) { const Opm::SPECGRID& s = d.getSPECGRID(); sym_check(s.dimensions[0] == 3 && s.dimensions[1] == 4 && s.dimensions[2] == 2 && s.numres == 1 && s.qrdial == 'F', "SPECGRID"); }
    if (has(d, "DXV")) { const V& a = d.getFloatingPointValue("DXV"); len(a.size(), 3, "DXV"); for (int i = 0; i < 3; ++i) ck(a[i], rate2[2], U.len, "keyword after SPECGRID"); }
    for (int ep = 0; ep < 3; ++ep) {
        d.setCurrentEpoch(ep); 
        if (has(d, "WELSPECS")) { const std::vector<Opm::WelspecsLine>& w = d.getWELSPECS().welspecs; len(w.size(), 2, "WELSPECS"); sym_check(w[0].name_ == "INJ" && w[0].group_ == "G1" && w[0].I_ == 3 && w[0].J_ == 4 && w[0].pref_phase_ == "WATER" && w[1].name_ == "PROD" && w[1].group_ == "G2" && w[1].I_ == 2 && w[1].J_ == 1 && w[1].pref_phase_ == "OIL", "WELSPECS names and position"); ck(w[0].datum_depth_BHP_, bhp, U.len, "WELSPECS datum depth"); if (!(D4 & 2)) ck(w[1].datum_depth_BHP_, bhp, U.len, "WELSPECS datum depth"); else sym_check_lt(w[1].datum_depth_BHP_, 0, "WELSPECS defaulted depth stays negative"); }
        if (has(d, "COMPDAT")) { const std::vector<Opm::CompdatLine>& c = d.getCOMPDAT().compdat; len(c.size(), D4 == 1 ? 3 : 2, "COMPDAT"); if (D4 == 1) { sym_check(c[2].grid_ind_[2] == 2, "COMPDAT cells"); sym_check_eq(c[2].diameter_, 0, "COMPDAT defaulted diameter"); sym_check_eq(c[2].connect_trans_fac_, 0, "COMPDAT defaulted transmissibility"); } sym_check(c[0].well_ == "INJ" && c[1].well_ == "PROD" && c[0].grid_ind_[0] == 3 && c[0].grid_ind_[1] == 4 && c[0].grid_ind_[2] == 1 && c[0].grid_ind_[3] == 2 && c[1].grid_ind_[0] == 2 && c[1].grid_ind_[1] == 1 && c[1].grid_ind_[2] == 1 && c[1].grid_ind_[3] == 1, "COMPDAT well and cells"); sym_check(c[0].open_shut_flag_ == "OPEN" && c[1].open_shut_flag_ == "OPEN", "COMPDAT flag");
            ck(c[0].diameter_, dia, U.len, "COMPDAT diameter"); if (D4) sym_check_eq(c[0].connect_trans_fac_, 0, "COMPDAT defaulted transmissibility"); else ck(c[0].connect_trans_fac_, cf, U.trans, "COMPDAT transmissibility"); if (D4 == 0 || D4 == 3) sym_check(c[0].sat_table_number_ == 2, "COMPDAT saturation table"); ck(c[1].connect_trans_fac_, cf, U.trans, "COMPDAT transmissibility"); if (D4 == 3) sym_check_eq(c[1].diameter_, 0, "COMPDAT defaulted diameter"); else ck(c[1].diameter_, dia2, U.len, "COMPDAT diameter"); }
        if (has(d, "WCONINJE")) { const std::vector<Opm::WconinjeLine>& w = d.getWCONINJE().wconinje; len(w.size(), ep ? 2 : 1, "WCONINJE"); const Opm::WconinjeLine& l = w[0]; sym_check(l.well_ == "INJ" && l.injector_type_ == itype && l.open_shut_flag_ == "OPEN" && l.control_mode_ == "RATE", "WCONINJE words"); const double q = itype == "GAS" ? GQ : LQ;
            if (D4 == 3) sym_check_lt(l.surface_flow_max_rate_, 0, "WCONINJE defaulted rate is negative"); else ck(l.surface_flow_max_rate_, inj[0], q, "WCONINJE rate"); if (D4) sym_check_lt(l.reservoir_flow_max_rate_, 0, "WCONINJE defaulted reservoir rate is negative"); else ck(l.reservoir_flow_max_rate_, inj[1], RQ, "WCONINJE reservoir rate"); if (D4 != 1) ck(l.BHP_limit_, inj[2], P, "WCONINJE bottom-hole pressure"); else sym_check_lt(0, l.BHP_limit_, "WCONINJE default pressure limit"); if (!D4) { ck(l.THP_limit_, inj[3], P, "WCONINJE tubing head pressure"); sym_check(l.VFP_table_number_ == 3, "WCONINJE table"); ck(l.concentration_, inj[4], RSF, "WCONINJE concentration"); } else { sym_check_lt(l.THP_limit_, 0, "WCONINJE defaulted tubing head pressure is negative"); sym_check(l.VFP_table_number_ == 0, "WCONINJE default table"); sym_check_eq(l.concentration_, 0, "WCONINJE default concentration"); }
            if (ep) { sym_check(w[1].well_ == "INJ" && w[1].injector_type_ == "WATER", "WCONINJE of a later epoch"); ck(w[1].surface_flow_max_rate_, rate2[0], LQ, "WCONINJE of a later epoch"); } }
        if (has(d, "WCONPROD")) { const std::vector<Opm::WconprodLine>& w = d.getWCONPROD().wconprod; len(w.size(), 2, "WCONPROD"); const Opm::WconprodLine& l = w[0]; sym_check(l.well_ == "PROD" && l.open_shut_flag_ == "OPEN" && l.control_mode_ == "ORAT" && w[1].well_ == "P2" && w[1].open_shut_flag_ == "SHUT" && w[1].control_mode_ == "BHP", "WCONPROD words"); ck(w[1].BHP_limit_, pro[6], P, "WCONPROD pressure"); sym_check_lt(w[1].oil_max_rate_, 0, "WCONPROD defaulted rate is negative");
            if (D4 != 3) ck(l.oil_max_rate_, pro[0], LQ, "WCONPROD oil rate"); else sym_check_lt(l.oil_max_rate_, 0, "WCONPROD defaulted rate is negative"); if (D4 != 1) ck(l.BHP_limit_, pro[5], P, "WCONPROD pressure"); if (!D4) { ck(l.water_max_rate_, pro[1], LQ, "WCONPROD water rate"); ck(l.gas_max_rate_, pro[2], GQ, "WCONPROD gas rate"); ck(l.liquid_max_rate_, pro[3], LQ, "WCONPROD liquid rate"); ck(l.reservoir_flow_max_rate_, pro[4], RQ, "WCONPROD reservoir rate"); ck(l.THP_limit_, pro[6], P, "WCONPROD tubing head pressure"); sym_check(l.VFP_table_number_ == 2, "WCONPROD table"); } else { sym_check_lt(l.water_max_rate_, 0, "WCONPROD defaulted rate is negative"); sym_check_lt(l.gas_max_rate_, 0, "WCONPROD defaulted rate is negative"); sym_check_lt(l.liquid_max_rate_, 0, "WCONPROD defaulted rate is negative"); sym_check_lt(l.reservoir_flow_max_rate_, 0, "WCONPROD defaulted rate is negative"); sym_check_eq(l.THP_limit_, 0, "WCONPROD default tubing head pressure"); } }
        if (has(d, "GRUPTREE")) { std::map<std::string, std::string> t = d.getGRUPTREE().tree; sym_check(t.size() == 2 && t["G1"] == "FIELD" && t["G2"] == "G1", "GRUPTREE"); }
        if (has(d, "GCONINJE")) { const std::vector<Opm::GconinjeLine>& g = d.getGCONINJE().gconinje; len(g.size(), 1, "GCONINJE"); sym_check(g[0].group_ == "G1" && g[0].injector_type_ == itype && g[0].control_mode_ == "RATE", "GCONINJE words");
            if (D4 != 2) ck(g[0].surface_flow_max_rate_, gi[0], itype == "GAS" ? GQ : LQ, "GCONINJE rate"); else sym_check_lt(g[0].surface_flow_max_rate_, 0, "GCONINJE defaulted rate is negative"); if (D4 == 0 || D4 == 2) ck(g[0].resv_flow_max_rate_, gi[1], RQ, "GCONINJE reservoir rate"); else sym_check_lt(g[0].resv_flow_max_rate_, 0, "GCONINJE defaulted rate is negative"); if (D4 == 0 || D4 == 3) ck(g[0].reinjection_fraction_target_, gi[2], 1, "GCONINJE reinjection fraction"); else sym_check_eq(g[0].reinjection_fraction_target_, 1, "GCONINJE default reinjection fraction"); if (!D4) ck(g[0].voidage_replacement_fraction_, gi[3], 1, "GCONINJE voidage replacement fraction"); else sym_check_eq(g[0].voidage_replacement_fraction_, 1, "GCONINJE default voidage replacement fraction"); }
        if (has(d, "GCONPROD")) { const std::vector<Opm::GconprodLine>& g = d.getGCONPROD().gconprod; len(g.size(), 1, "GCONPROD"); sym_check(g[0].group_ == "G2" && g[0].control_mode_ == "ORAT" && g[0].procedure_ == (D4 == 1 || D4 == 2 ? "NONE" : "RATE"), "GCONPROD words"); const double u[4] = { LQ, LQ, GQ, LQ }, a[4] = { g[0].oil_max_rate_, g[0].water_max_rate_, g[0].gas_max_rate_, g[0].liquid_max_rate_ }; for (int k = 0; k < 4; ++k) { if (k == 0 || D4 == 0 || D4 == 3) ck(a[k], gp[k], u[k], "GCONPROD rates"); else sym_check_lt(a[k], 0, "GCONPROD defaulted rate is negative"); } if (D4 != 1) ck(g[0].resv_max_rate_, gp[4], RQ, "GCONPROD reservoir rate"); else sym_check_lt(g[0].resv_max_rate_, 0, "GCONPROD defaulted rate is negative"); }
        if (has(d, "WGRUPCON")) { const std::vector<Opm::WgrupconLine>& g = d.getWGRUPCON().wgrupcon; len(g.size(), 2, "WGRUPCON"); sym_check(g[0].well_ == "INJ" && g[0].available_for_group_control_ && g[1].well_ == "PROD" && !g[1].available_for_group_control_ && g[1].phase_ == "OIL" && (D4 & 1 || g[0].phase_ == "RAT"), "WGRUPCON words"); ck(g[0].guide_rate_, gu[0], 1, "WGRUPCON guide rate"); ck(g[1].guide_rate_, gu[1], 1, "WGRUPCON guide rate"); }
        if (has(d, "WPOLYMER")) { const std::vector<Opm::WpolymerLine>& g = d.getWPOLYMER().wpolymer_; len(g.size(), 1, "WPOLYMER"); sym_check(g[0].well_ == "INJ", "WPOLYMER well"); ck(g[0].polymer_concentration_, wp[0], U.pdens, "WPOLYMER polymer"); if (D4 & 2) sym_check_eq(g[0].salt_concentration_, 0, "WPOLYMER default salt"); else ck(g[0].salt_concentration_, wp[1], U.pdens, "WPOLYMER salt"); }
        sym_check(d.hasField("WELTARG") == (ep > 0), "WELTARG from the second epoch on"); if (ep && d.hasField("WELTARG")) { const std::vector<Opm::WeltargLine>& g = d.getWELTARG().weltarg; len(g.size(), 6, "WELTARG"); const double u[6] = { LQ, LQ, GQ, LQ, RQ, P }; for (int k = 0; k < 6; ++k) { sym_check(g[k].well_ == "PROD" && g[k].control_change_ == item[k], "WELTARG words"); ck(g[k].new_value_, wt[k], u[k], "WELTARG value"); } }
        if (ep) { const std::vector<Opm::WelopenLine>& g = d.getWELOPEN().welopen; len(g.size(), ep, "WELOPEN"); sym_check(g[0].well_ == "PROD" && g[0].openshutflag_ == "SHUT" && (ep == 1 || g[1].openshutflag_ == "OPEN"), "WELOPEN"); }
        if (has(d, "TSTEP")) { const V& t = d.getTSTEP().tstep_; const int n[3] = { 4, 5, 7 }, src[5] = { 0, 1, 2, 2, 3 }; len(t.size(), n[ep], "TSTEP"); for (int k = 0; k < std::min(n[ep], 5); ++k) ck(t[k], ts[src[k]], U.time, "TSTEP"); if (ep == 2) { const double before = ts[0].v + ts[1].v + 2 * ts[2].v + ts[3].v, first = start.empty() ? 100 : 41; ck(t[5], first - before, 200, U.time, "time step up to the first date"); ck(t[6], start.empty() ? 81 : 81, 200, U.time, "time step between dates"); } }
    }
    sym_check(d.getStartDate() == (start.empty() ? boost::gregorian::date(1983, 1, 1) : boost::gregorian::date(1990, 3, 1)), "start date");
#elif PART == 3
    NV pv = nums("PLYVISC", 4), pr = nums("PLYROCK", 5), pa = nums("PLYADS", 4), pm = nums("PLYMAX", 2), tl = nums("TLMIXPAR", 2, 0, 1), en = nums("ENPTVD", 12, 0.0625, 0.9375), ek = nums("ENKRVD", 12, 0.0625, 0.9375), mf = nums("MULTFLT", 2), z = nums("depth", 2, 1, 4); const int df = sym_choice("defaults", 2), es = sym_choice("ENDSCALE form", 4);
    z.push_back(num("depth 2", 5, 8)); 
    T += "PROPS\nPLYVISC\n" + cmt() + list(pv) + fin() + "PLYROCK\n" + cmt() + (df ? list(pr, 0, 3) + " 1* " + pr[4] : list(pr)) + fin() + "PLYADS\n" + list(pa) + fin() + "PLYMAX\n" + list(pm) + fin() + "TLMIXPAR\n" + (df ? list(tl, 0, 1) : list(tl)) + fin();
    T += "MULTFLT\n" + cmt() + "FLT1 " + mf[0] + (df ? "" : " 0.5") + " /\n" + cmt() + "FLT2 " + mf[1] + " 0.25 /\n" + cmt() + "/\nFAULTS\n" + cmt() + "FLT1 1 1 1 2 3 4 X /\n" + cmt() + "FLT2 2 2 1 1 1 3 Y /\n" + cmt() + "/\n";
    T += std::string("ENDSCALE\n") + cmt() + (es == 0 ? "/\n" : es == 1 ? "'DIRECT' /\n" : es == 2 ? "'DIRECT' 'IRREVERS' /\n" : "'DIRECT' 'IRREVERS' 3 15 /\n") + "SCALECRS\n" + cmt() + (es & 1 ? "YES /\n" : es ? "NO /\n" : "/\n");
    T += "ENPTVD\n" + z[0] + " " + list(en, 0, 3) + " 3* " + en[3] + " 1*\n3.0 1* " + en[4] + " 1* 3* " + en[5] + " 1* \n" + z[2] + " " + list(en, 6, 9) + " 3* " + en[9] + " 1*" + fin() + "/\n";
    T += "ENKRVD\n" + z[0] + " " + ek[0] + " 1* " + ek[1] + " 1* 2* 1*\n" + z[2] + " " + ek[2] + " 1* " + ek[3] + " 1* 2* 1* " + fin() + "/\nSCHEDULE\n";
    parse(d, T);
    if (has(d, "PLYVISC")) { const Opm::PLYVISC& t = d.getPLYVISC(); len(t.concentration_.size(), 2, "PLYVISC"); for (int k = 0; k < 2; ++k) { ck(t.concentration_[k], pv[2 * k], U.pdens, "PLYVISC concentration"); ck(t.factor_[k], pv[2 * k + 1], 1, "PLYVISC factor"); } }
    if (has(d, "PLYROCK")) { const V& t = d.getPLYROCK().plyrock_; len(t.size(), 5, "PLYROCK"); for (int k = 0; k < 5; ++k) if (df && k == 3) sym_check_eq(t[k], 1, "PLYROCK default adsorption index"); else ck(t[k], pr[k], k == 2 ? U.pdens : 1, "PLYROCK"); }
    if (has(d, "PLYADS")) { const Opm::PLYADS& t = d.getPLYADS(); len(t.local_concentration_.size(), 2, "PLYADS"); for (int k = 0; k < 2; ++k) { ck(t.local_concentration_[k], pa[2 * k], U.pdens, "PLYADS concentration"); ck(t.adsorbed_concentration_[k], pa[2 * k + 1], 1, "PLYADS adsorbed"); } }
    if (has(d, "PLYMAX")) { const V& t = d.getPLYMAX().plymax_; len(t.size(), 2, "PLYMAX"); for (int k = 0; k < 2; ++k) ck(t[k], pm[k], U.pdens, "PLYMAX"); }
    if (has(d, "TLMIXPAR")) { const V& t = d.getTLMIXPAR().tlmixpar_; len(t.size(), 2, "TLMIXPAR"); ck(t[0], tl[0], 1, "TLMIXPAR viscosity"); ck(t[1], tl[df ? 0 : 1], 1, "TLMIXPAR density (default: the viscosity parameter)"); }
    if (has(d, "MULTFLT")) { const std::vector<Opm::MultfltLine>& t = d.getMULTFLT().multflts; len(t.size(), 2, "MULTFLT"); sym_check(t[0].fault_name == "FLT1" && t[1].fault_name == "FLT2", "MULTFLT names"); ck(t[0].transmis_multiplier, mf[0], 1, "MULTFLT"); ck(t[1].transmis_multiplier, mf[1], 1, "MULTFLT"); sym_check_eq(t[0].diffusivity_multiplier, df ? 1 : 0.5, "MULTFLT diffusivity"); sym_check_eq(t[1].diffusivity_multiplier, 0.25, "MULTFLT diffusivity"); }
    if (has(d, "FAULTS")) { const std::vector<Opm::FaultSegment>& t = d.getFAULTS().faults; len(t.size(), 2, "FAULTS"); const int a[2][6] = { { 1, 1, 1, 2, 3, 4 }, { 2, 2, 1, 1, 1, 3 } }; for (int i = 0; i < 2; ++i) { for (int k = 0; k < 6; ++k) sym_check(t[i].ijk_coord[k] == a[i][k], "FAULTS cells"); sym_check(t[i].face == (i ? "Y" : "X") && t[i].fault_name == (i ? "FLT2" : "FLT1"), "FAULTS name and face"); } }
    if (has(d, "ENDSCALE")) { const Opm::ENDSCALE& t = d.getENDSCALE(); sym_check(t.dir_switch_ == (es ? "DIRECT" : "NODIR") && t.revers_switch_ == (es > 1 ? "IRREVERS" : "REVERS") && t.n_tab_ == (es > 2 ? 3 : 1) && t.n_node_ == (es > 2 ? 15 : 20), "ENDSCALE"); }
    if (has(d, "SCALECRS")) sym_check(d.getSCALECRS().scalecrs_ == (es & 1 ? "YES" : "NO"), "SCALECRS");
    if (has(d, "ENPTVD")) { const std::vector<std::vector<V> >& t = d.getENPTVD().table_; len(t.size(), 5, "ENPTVD columns"); len(t[0].size(), 1, "ENPTVD tables"); len(t[0][0].size(), 3, "ENPTVD rows"); ck(t[0][0][0], z[0], U.len, "ENPTVD depth"); ck(t[0][0][1], 3.0, 4, U.len, "ENPTVD depth"); ck(t[0][0][2], z[2], U.len, "ENPTVD depth");
        const int c[4][3] = { { 0, -1, 6 }, { 1, 4, 7 }, { 2, -1, 8 }, { 3, 5, 9 } }; for (int k = 0; k < 4; ++k) for (int r = 0; r < 3; ++r) if (c[k][r] >= 0) ck(t[1 + k][0][r], en[c[k][r]], 1, "ENPTVD end points"); else { const double dz = z[2].v - z[0].v; sym_check_eq((t[1 + k][0][r] - en[c[k][0]].v) * dz, (en[c[k][2]].v - en[c[k][0]].v) * (3.0 - z[0].v), "ENPTVD defaulted end points are interpolated in depth"); }
        for (int k = 0; k < 4; ++k) sym_check(d.getENPTVD().mask_[k], "ENPTVD columns given"); }
    if (has(d, "ENKRVD")) { const std::vector<std::vector<V> >& t = d.getENKRVD().table_; len(t.size(), 5, "ENKRVD columns"); len(t[0].size(), 1, "ENKRVD tables"); len(t[0][0].size(), 2, "ENKRVD rows"); for (int r = 0; r < 2; ++r) { ck(t[0][0][r], z[r ? 2 : 0], U.len, "ENKRVD depth"); ck(t[1][0][r], ek[2 * r], 1, "ENKRVD krw"); ck(t[2][0][r], ek[2 * r + 1], 1, "ENKRVD kro"); } const bool m[4] = { true, true, false, false }; for (int k = 0; k < 4; ++k) sym_check(d.getENKRVD().mask_[k] == m[k], "ENKRVD columns given"); }
#elif PART == 5
    // one parser object reads two decks: the second as if the first had not been read
    NV a = nums("first", 4), b = nums("second", 4);
    Fam u2 = family(!fam); const bool st = sym_choice("second has START", 2);
    const std::string A = T + "START\n 1 JAN 2000 /\nPORO\n" + a[0] + " /\nPERMX\n" + a[1] + " /\nDENSITY\n 1 2 " + a[2] + " /\nOIL\nTSTEP\n" + a[3] + " /\n" + (sym_choice("second epoch in the first deck", 2) ? "WELOPEN\n'P' 'OPEN' /\n/\n" : "");
    const std::string B = std::string(fam ? "METRIC\n" : "FIELD\n") + (st ? "START\n 1 FEB 2001 /\n" : "") + "PRESSURE\n" + b[0] + " 2*" + b[1] + " /\nROCK\n" + b[2] + " 0.5 /\nTSTEP\n" + b[3] + " /\nWELOPEN\n'Q' 'SHUT' /\n/\nDATES\n 1 MAR " + (st ? "2001" : "1983") + " /\n/\n";
    parse(d, A); if (conv) sym_check_eq(d.getTSTEP().tstep_[0], a[3].v * 86400, "first deck"); parse(d, B); U = u2;
    sym_check(d.numberOfEpochs() == 2, "epochs of the second deck"); sym_check(!d.hasField("PORO") && !d.hasField("PERMX") && !d.hasField("DENSITY") && !d.hasField("OIL") && d.hasField("FIELD") == (fam == 0), "no keyword of the first deck remains");
    if (d.numberOfEpochs() != 2) return;
    ck(d.getFloatingPointValue("PRESSURE")[0], b[0], U.pres, "second deck pressure"); ck(d.getFloatingPointValue("PRESSURE")[2], b[1], U.pres, "second deck pressure");
    if (has(d, "ROCK")) { ck(d.getROCK().rock_compressibilities_[0][0], b[2], U.pres, "second deck rock"); } else return;
    if (has(d, "TSTEP")) { len(d.getTSTEP().tstep_.size(), 1, "second deck steps"); ck(d.getTSTEP().tstep_[0], b[3], 86400, "second deck steps"); }
    d.setCurrentEpoch(1); len(d.getTSTEP().tstep_.size(), 2, "second deck steps"); ck(d.getTSTEP().tstep_[1], (st ? 28 : 59) - b[3].v, 200, 86400, "second deck step up to the date");
    sym_check(d.getStartDate() == (st ? boost::gregorian::date(2001, 2, 1) : boost::gregorian::date(1983, 1, 1)), "start date of the second deck");
#endif
    sym_reach("end");
}
