// C41 group control.  PART 0: applyGroupControls and reinjection; PART 1: conditionsMet and reactions.
#include "symutil.hpp"
#include <opm/core/wells.h>
#include <opm/core/wells/WellCollection.hpp>
#include <opm/core/wells/WellsGroup.hpp>
#include <iostream>
#include <cstring>
using namespace Opm;
typedef std::vector<double> V; typedef std::tr1::shared_ptr<WellsGroupInterface> Ptr;
typedef ProductionSpecification PS; typedef InjectionSpecification IS;
enum { NW = 4 };
// tree: FIELD { G1 { W1, W2, [W3] }, W0, [W3] }
struct World {
    PhaseUsage pu; Wells* w; WellCollection col; Ptr field, g1, nd[NW]; bool prod[NW]; double bhpT[NW], rateT[NW]; PS ps[NW], fps, gps; IS is[NW], fis, gis; bool inG[NW]; int np;
    void phases(int n) { np = n; pu.num_phases = n; for (int p = 0; p < 3; ++p) { pu.phase_used[p] = p < n; pu.phase_pos[p] = p; } }
    void build(int flip)
    {
        w = create_wells(np, NW, NW); const double comp[3] = { 1, 0, 0 }; int cell = 0; double wi = 1;
        for (int i = 0; i < NW; ++i) {
            cell = i; add_well(prod[i] ? PRODUCER : INJECTOR, 0.0, 1, comp, &cell, &wi, 0, w);
            const double own[3] = { 1, 1, 0 };
            append_well_controls(BHP, bhpT[i], 0, i, w); append_well_controls(i % 2 ? RESERVOIR_RATE : SURFACE_RATE, rateT[i], own, i, w); set_current_control(i, (i + flip) % 2, w);
        }
        field.reset(new WellsGroup("FIELD", fps, fis, pu)); col.addChild(field);
        g1.reset(new WellsGroup("G1", gps, gis, pu)); col.addChild(g1, "FIELD");
        for (int i = 0; i < NW; ++i) { nd[i].reset(new WellNode(nme("W", i), ps[i], is[i], pu)); col.addChild(nd[i], inG[i] ? "G1" : "FIELD"); }
        col.setWellsPointer(w);
        for (int i = 0; i < NW; ++i) { sym_check(col.getLeafNodes()[i] == nd[i].get(), "leaf nodes in well order"); sym_check(nd[i]->getParent() == (inG[i] ? g1 : field).get(), "a well's parent is the group it was added to"); }
        sym_check(g1->getParent() == field.get() && !field->getParent(), "parents of groups"); sym_check(col.findNode("W2") == nd[2].get() && col.findNode("G1") == g1.get() && !col.findNode("X"), "nodes are found by name"); sym_check(field->numberOfLeafNodes() == NW, "number of wells");
    }
    ~World() { destroy_wells(w); }
};
struct Snap { int num[NW], cur[NW]; std::vector<int> type[NW]; V target[NW], distr[NW]; };
static Snap snap(const World& W) { Snap s; for (int i = 0; i < NW; ++i) { const WellControls* c = W.w->ctrls[i]; s.num[i] = c->num; s.cur[i] = c->current; for (int k = 0; k < c->num; ++k) { s.type[i].push_back(c->type[k]); s.target[i].push_back(c->target[k]); for (int p = 0; p < W.np; ++p) s.distr[i].push_back(c->distr[k * W.np + p]); } } return s; }
static void own(const World& W, const Snap& a, const Snap& b, int i) { for (int k = 0; k < 2; ++k) { sym_check(a.type[i][k] == b.type[i][k], "a well's own controls keep their kind"); sym_check_eq(b.target[i][k], a.target[i][k], "a well's own controls keep their targets"); for (int p = 0; p < W.np; ++p) sym_check_eq(b.distr[i][k * W.np + p], a.distr[i][k * W.np + p], "a well's own controls keep their distribution"); } }
// well i is controlled by an appended group control with the given meaning
static void isGroup(const World& W, const Snap& b, int i, int type, const double* distr, double target)
{
    if (b.num[i] != 3 || b.cur[i] != 2) { sym_check(0, "a group controlled well is controlled by its single group control"); return; }
    sym_check(b.type[i][2] == type, "group control constrains the right kind of rate"); sym_check_eq(b.target[i][2], target, "group target is shared in proportion to guide rates");
    for (int p = 0; p < W.np; ++p) sym_check_eq(b.distr[i][2 * W.np + p], distr[p], "group control constrains the phases of its mode");
}
static void untouched(const World& W, const Snap& a, const Snap& b, int i) { sym_check(b.num[i] == a.num[i] && b.cur[i] == a.cur[i], "a well that is not under group control keeps its own control"); own(W, a, b, i); }
static const PS::ControlMode PM[] = { PS::ORAT, PS::WRAT, PS::LRAT, PS::RESV, PS::GRAT };
static const double PD[][3] = { { 0, 1, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 1, 1, 1 }, { 0, 0, 1 } };
static void setLimit(PS& s, PS::ControlMode m, double t) { if (m == PS::ORAT) s.oil_max_rate_ = t; else if (m == PS::WRAT) s.water_max_rate_ = t; else if (m == PS::LRAT) s.liquid_max_rate_ = t; else if (m == PS::RESV) s.reservoir_flow_max_rate_ = t; else s.gas_max_rate_ = t; }
static const double ONES[3] = { 1, 1, 1 };
#if PART == 0
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit);
    World W; W.phases(NP); bool grup[NW]; double gd[NW];
    const bool inj = INJ, atField = sym_choice("group", 2) == 0; const int odd = 3; // W3 has the opposite role
    for (int i = 0; i < NW; ++i) {
        W.inG[i] = i == 1 || i == 2; W.prod[i] = (i == odd) == inj; gd[i] = rvar("guide", i, 0.0625, 16); W.bhpT[i] = 100 + i; W.rateT[i] = (W.prod[i] ? -1 : 1) * (5 + i);
        grup[i] = i == odd ? true : i == 2 ? true : sym_choice(nme("grup", i).c_str(), 2) == 0;
        if (i == odd) W.inG[i] = sym_choice("oddin", 2);
        if (W.prod[i]) { W.is[i].guide_rate_ = 0; W.ps[i].guide_rate_ = gd[i]; W.ps[i].control_mode_ = grup[i] ? PS::GRUP : (i ? PS::BHP : PS::ORAT); }
        else { W.ps[i].guide_rate_ = 0; W.is[i].guide_rate_ = gd[i]; W.is[i].control_mode_ = grup[i] ? IS::GRUP : (i ? IS::BHP : IS::RATE); }
    }
    const double T = sym_real("T", 0, 1000), fr = sym_real("fraction", 0, 4); int type; double sgnT = T; const double* distr = ONES; int im = 0;
    PS& gp = atField ? W.fps : W.gps; IS& gi = atField ? W.fis : W.gis;
    // the group not used may be on field control
    if (sym_choice("fld", 2)) { (atField ? W.gps : W.fps).control_mode_ = PS::FLD; (atField ? W.gis : W.fis).control_mode_ = IS::FLD; }
    if (!inj) { const int m = sym_choice("mode", NP == 3 ? 4 : 3) ; const int mm = NP == 3 ? m : (m == 2 ? 3 : m); gp.control_mode_ = PM[mm]; setLimit(gp, PM[mm], T); type = PM[mm] == PS::RESV ? RESERVOIR_RATE : SURFACE_RATE; distr = PD[mm]; sgnT = -T; }
    else { im = sym_choice("mode", 4); gi.control_mode_ = im == 0 ? IS::RATE : im == 1 ? IS::RESV : im == 2 ? IS::REIN : IS::VREP; type = im == 0 || im == 2 ? SURFACE_RATE : RESERVOIR_RATE; if (im == 0) gi.surface_flow_max_rate_ = T; else if (im == 1) gi.reservoir_flow_max_rate_ = T; gi.reinjection_fraction_target_ = fr; gi.voidage_replacment_fraction_ = fr; }
    W.build(0); const Snap s0 = snap(W);
    V res(NW * NP), surf(NW * NP); for (int i = 0; i < NW; ++i) for (int p = 0; p < NP; ++p) { res[i * NP + p] = W.prod[i] ? rvar2("res", i, p, -50, 0) : rvar2("res", i, p, 0, 50); surf[i * NP + p] = W.prod[i] ? rvar2("surf", i, p, -50, 0) : rvar2("surf", i, p, 0, 50); }
    if (inj && im == 2) { static const IS::InjectorType it[] = { IS::WATER, IS::OIL, IS::GAS }; const int ph = sym_choice("injphase", NP); (atField ? W.field : W.g1)->injSpec().injector_type_ = it[ph]; sgnT = 0; for (int i = 0; i < NW; ++i) if (W.prod[i] && (atField || W.inG[i])) sgnT -= fr * surf[i * NP + ph]; }
    if (inj && im == 3) { sgnT = 0; for (int i = 0; i < NW; ++i) if (W.prod[i] && (atField || W.inG[i])) for (int p = 0; p < NP; ++p) sgnT -= fr * res[i * NP + p]; }
    for (int rep = 0; rep < 2; ++rep) {
        W.col.applyGroupControls(); if (inj && im >= 2) W.col.applyExplicitReinjectionControls(res, surf);
        const Snap s = snap(W); double sum = 0, sumT = 0;
        for (int i = 0; i < NW; ++i) if (i != odd && grup[i] && (atField || W.inG[i])) sum += gd[i];
        for (int i = 0; i < NW; ++i) { if (i != odd && grup[i] && (atField || W.inG[i])) { isGroup(W, s, i, type, distr, sgnT * gd[i] / sum); sumT += s.target[i].back(); own(W, s0, s, i); } else untouched(W, s0, s, i); }
        sym_check_eq(sumT, sgnT, "assigned rates add up to the group target");
    }
    sym_reach("applied");
}
#else
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit);
    World W; W.phases(NP); double gd[NW]; const int kind = KIND; // which constraints are present: 0 wells, 1 injection groups, 2 production groups
    for (int i = 0; i < NW; ++i) {
        W.inG[i] = i == 1 || i == 2; W.prod[i] = kind == 2 ? i != 1 : i == 0; if (kind == 0) W.prod[i] = i < 2;
        gd[i] = rvar("guide", i, 0.0625, 16);
        W.bhpT[i] = kind == 0 ? rvar("bhpT", i, 1, 100) : W.prod[i] ? 0 : 1e6; W.rateT[i] = (W.prod[i] ? -1 : 1) * (kind == 0 ? rvar("rateT", i, 0, 100) : 1e6);
        if (W.prod[i]) { W.is[i].guide_rate_ = 0; W.ps[i].guide_rate_ = gd[i]; W.ps[i].control_mode_ = PS::BHP; } else { W.ps[i].guide_rate_ = 0; W.is[i].guide_rate_ = gd[i]; W.is[i].control_mode_ = IS::BHP; }
    }
    double lim[2][7]; int act[2] = { -1, -1 }; const int NM = NP == 3 ? 5 : 4; const int well = kind == 2 && sym_choice("procedure", 2); static const PS::ControlMode order[] = { PS::ORAT, PS::WRAT, PS::LRAT, PS::RESV, PS::GRAT };
    const int tight = kind == 2 ? sym_choice("limits", 4) : 0;
    for (int g = 0; g < 2; ++g) {
        PS& p = g ? W.gps : W.fps; IS& q = g ? W.gis : W.fis; p.procedure_ = well ? PS::WELL : PS::RATE;
        for (int m = 0; m < 7; ++m) lim[g][m] = -1;
        if (kind == 1) { lim[g][5] = q.surface_flow_max_rate_ = rvar("limS", g, 0, 100); lim[g][6] = q.reservoir_flow_max_rate_ = rvar("limR", g, 0, 100); act[g] = 4 + sym_choice(nme("active", g).c_str(), 3); if (act[g] == 4) act[g] = -1; else q.control_mode_ = act[g] == 5 ? IS::RATE : IS::RESV; }
        if (kind == 2) {
            // two of the modes have limits
            const int pairs[4][2] = { { 0, 3 }, { 1, 0 }, { 2, 3 }, { NP == 3 ? 4 : 1, 0 } };
            for (int k = 0; k < 2; ++k) { const int m = pairs[tight][k]; lim[g][m] = rvar2("lim", g, m, 0, 100); setLimit(p, order[m], lim[g][m]); }
            if (g == 0 && sym_choice("active", 2)) { act[g] = pairs[tight][0]; p.control_mode_ = order[act[g]]; }
        }
    }
    W.build(kind == 0 ? sym_choice("flip", 2) : 1); const Snap s0 = snap(W); V bhp = rvec("bhp", NW, 1, 100), res(NW * NP), surf(NW * NP);
    for (int i = 0; i < NW; ++i) for (int p = 0; p < NP; ++p) { res[i * NP + p] = W.prod[i] ? rvar2("res", i, p, -50, 0) : rvar2("res", i, p, 0, 50); surf[i * NP + p] = W.prod[i] ? rvar2("surf", i, p, -50, 0) : rvar2("surf", i, p, 0, 50); }
    const bool ok = W.col.conditionsMet(bhp, res, surf); const Snap s = snap(W);
    // constraint values
    const double eps = 1e-6; double own[NW], rate[2][7]; for (int i = 0; i < NW; ++i) { const V& r = i % 2 ? res : surf; own[i] = std::fabs(r[i * NP] + r[i * NP + 1]); }
    for (int g = 0; g < 2; ++g) for (int m = 0; m < 7; ++m) { double x = 0; for (int i = 0; i < NW; ++i) if ((g == 0 || W.inG[i]) && W.prod[i] == (m < 5)) for (int p = 0; p < NP; ++p) { const V& r = m == 3 || m == 6 ? res : surf; x += (m < 5 ? PD[m][p] : 1.0) * r[i * NP + p]; } rate[g][m] = std::fabs(x); }
    if (ok) {
        for (int i = 0; i < NW; ++i) {
            untouched(W, s0, s, i);
            if (s.cur[i] != 0) { if (W.prod[i]) sym_check_le(W.bhpT[i], bhp[i], "conditions met but a producer's pressure is below its limit"); else sym_check_le(bhp[i], W.bhpT[i], "conditions met but an injector's pressure is above its limit"); }
            if (s.cur[i] != 1) sym_check_le(own[i], std::fabs(W.rateT[i]) + (i % 2 ? 1e-6 * (own[i] + std::fabs(W.rateT[i])) : 0.0), "conditions met but a well's rate is above its limit");
        }
        for (int g = 0; g < 2; ++g) for (int m = 0; m < 7; ++m) if (act[g] != m && (m < NM || m > 4) && ((kind == 1 && m > 4) || (kind == 2 && (tight == 0 ? m == 0 || m == 3 : tight == 1 ? m < 2 : tight == 2 ? m == 2 || m == 3 : m == 0 || m == (NP == 3 ? 4 : 1))))) sym_check_le(rate[g][m], lim[g][m], "conditions met but a group's rate is above its limit");
        sym_reach("met"); return;
    }
    int changed = -1, nch = 0; for (int i = 0; i < NW; ++i) if (s.cur[i] != s0.cur[i] || s.num[i] != s0.num[i]) { changed = i; ++nch; }
    if (!nch) { sym_check(0, "a violated constraint changes some control"); return; }
    if (kind == 0) {
        const int i = changed, k = s.cur[i]; sym_check(nch == 1 && s.num[i] == 2 && k >= 0 && k < 2 && k != s0.cur[i], "one well switches to another of its controls"); if (nch != 1 || k < 0 || k > 1) return;
        for (int j = 0; j < NW; ++j) if (j != i) untouched(W, s0, s, j);
        if (k == 0) { if (W.prod[i]) sym_check_le(bhp[i], W.bhpT[i], "a well switches to a pressure limit that is violated"); else sym_check_le(W.bhpT[i], bhp[i], "a well switches to a pressure limit that is violated"); }
        else sym_check_le(std::fabs(W.rateT[i]), own[i], "a well switches to a rate limit that is violated");
        sym_reach("well switched"); return;
    }
    // a group reacted: find out which, from the wells that changed
    int g = 1; for (int i = 0; i < NW; ++i) if ((s.cur[i] != s0.cur[i] || s.num[i] != s0.num[i]) && !W.inG[i]) g = 0;
    if (well) {
        sym_check(nch == 1 && s.cur[changed] < 0, "one well is shut"); sym_check(W.prod[changed], "the well shut for a production limit is a producer");
        // some violated limit of some group containing the well for which it is the largest producer
        bool good = false; for (int gg = 0; gg < 2 && !good; ++gg) if (gg == 0 || W.inG[changed]) for (int m = 0; m < NM && !good; ++m) if (m != act[gg] && (tight == 0 ? m == 0 || m == 3 : tight == 1 ? m < 2 : tight == 2 ? m == 2 || m == 3 : m == 0 || m == (NP == 3 ? 4 : 1)) && rate[gg][m] + 1e-9 >= lim[gg][m]) {
            bool worst = true; for (int j = 0; j < NW && worst; ++j) if (W.prod[j] && (gg == 0 || W.inG[j])) { double a = 0, b = 0; for (int p = 0; p < NP; ++p) { const V& r = m == 3 ? res : surf; a += PD[m][p] * r[j * NP + p]; b += PD[m][p] * r[changed * NP + p]; } worst = std::fabs(a) <= std::fabs(b) + 1e-9; }
            good = worst;
        }
        sym_check(good, "the well shut is the group's largest producer of the limited rate"); for (int j = 0; j < NW; ++j) if (j != changed) untouched(W, s0, s, j);
        dynamic_cast<WellNode*>(W.nd[changed].get())->shutWell(); sym_check(W.w->ctrls[changed]->current < 0, "shutting a shut well leaves it shut");
        sym_reach("well shut"); return;
    }
    if (s.num[changed] != 3) { sym_check(0, "a group reaction puts its wells under group control"); return; }
    int mode = -1; if (kind == 1) mode = s.type[changed][2] == SURFACE_RATE ? 5 : 6; else for (int m = 0; m < NM; ++m) { bool same = s.type[changed][2] == (m == 3 ? RESERVOIR_RATE : SURFACE_RATE); for (int p = 0; p < NP; ++p) same = same && s.distr[changed][2 * NP + p] == PD[m][p]; if (same) mode = m; }
    if (mode < 0 || mode == act[g]) { sym_check(0, "a group reacts with the mode of a limit that is violated"); return; }
    sym_check_le(lim[g][mode], rate[g][mode], "a group reacts to a limit that is violated");
    double sum = 0; for (int i = 0; i < NW; ++i) if (W.prod[i] == (kind == 2) && (g == 0 || W.inG[i])) sum += gd[i];
    for (int i = 0; i < NW; ++i) if (W.prod[i] == (kind == 2) && (g == 0 || W.inG[i])) isGroup(W, s, i, mode == 3 || mode == 6 ? RESERVOIR_RATE : SURFACE_RATE, kind == 1 ? ONES : PD[mode], (kind == 1 ? 1 : -1) * lim[g][mode] * gd[i] / sum); else untouched(W, s0, s, i);
    if (kind == 1) sym_check((g ? W.g1 : W.field)->injSpec().control_mode_ == (mode == 5 ? IS::RATE : IS::RESV), "the reacting group is now controlled by the violated limit");
    sym_reach("group control applied");
}
#endif
