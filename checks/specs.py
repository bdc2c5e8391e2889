P = "opm/core/"
def S(*a): return [P + x for x in a]
GRID = S("grid/cart_grid.c", "grid/grid.c", "grid/cornerpoint_grid.c", "grid/cpgpreprocess/geometry.c", "grid/cpgpreprocess/preprocess.c", "grid/cpgpreprocess/facetopology.c", "grid/cpgpreprocess/uniquepoints.c")
TH = ["thorough"]
CHECKS = {}
NA = {"C43": "not built: parameter groups are strings and maps throughout (names, paths, XML, text of numbers); the executor tracks floating-point values symbolically, so only fixed strings could be run, which is enumeration and not a solver's verdict", "C47": "not built: the basis functions and the coarse system come out of small dense factorisations (dposv/dgesv per block and per coarse face) followed by matrix-matrix products; each entry is a rational function of all inner products of a block pair, beyond what the solver decides here"}

CHECKS["C01"] = dict(level="model_checking", note="all real inputs within bounds on fixed small grids; exact real arithmetic", units=[dict(name="trans_tpfa", src="trans_tpfa.cpp", sources=GRID + S("pressure/tpfa/trans_tpfa.c"))])
LS = S("linalg/sparse_sys.c")
IFS = GRID + LS + S("pressure/tpfa/ifs_tpfa.c", "pressure/flow_bc.c", "wells/wells.c")
NOTE = "solver verdict over all real inputs within stated bounds; exact real arithmetic; fixed small topologies"
def pifs(prop, mode, topo, **k):
    return dict(name="ifs_p%d_m%d_t%d" % (prop, mode, topo), src="pressure_ifs.cpp", sources=IFS, defs=["PROP=%d" % prop, "MODE=%d" % mode, "TOPO=%d" % topo], **k)
CHECKS["C02"] = dict(level="model_checking", note=NOTE, units=[pifs(2, 0, 0), pifs(2, 0, 2), pifs(2, 1, 0), pifs(2, 0, 1, tiers=["thorough"])])
CHECKS["C03"] = dict(level="model_checking", note=NOTE, units=[pifs(3, 0, 0), pifs(3, 0, 2), pifs(3, 1, 0), pifs(3, 0, 1, tiers=["thorough"])])
CHECKS["C05"] = dict(level="model_checking", note=NOTE, units=[pifs(5, 2, 0), pifs(5, 2, 2)])
INC = IFS + S("pressure/tpfa/trans_tpfa.c", "pressure/mimetic/mimetic.c", "pressure/IncompTpfa.cpp", "utility/miscUtilities.cpp", "linalg/LinearSolverInterface.cpp", "props/rock/RockCompressibility.cpp",
   "utility/parameters/Parameter.cpp", "utility/parameters/ParameterGroup.cpp", "utility/parameters/ParameterTools.cpp", "utility/parameters/ParameterXML.cpp", "utility/parameters/tinyxml/tinystr.cpp", "utility/parameters/tinyxml/tinyxml.cpp", "utility/parameters/tinyxml/tinyxmlerror.cpp", "utility/parameters/tinyxml/tinyxmlparser.cpp", "io/eclipse/EclipseGridParser.cpp")
for _p in (2, 3):
    for _d in (3, 2):
        CHECKS["C%02d" % _p]["units"].append(dict(name="incomp_tpfa%d_p%d" % (_d, _p), src="incomp_tpfa.cpp", sources=INC, defs=["DIM=%d" % _d, "PROP=%d" % _p]))
CHECKS["C04"] = dict(level="model_checking", note=NOTE, units=[dict(name="incomp_hist3", src="incomp_tpfa.cpp", sources=INC, defs=["HIST=1"])])
CHECKS["C05"]["units"] += [dict(name="incomp_rock%d" % _w, src="incomp_rock.cpp", sources=INC, defs=["WELL=%d" % _w], tiers=["quick", "thorough"] if _w < 2 else ["thorough"]) for _w in (0, 1, 2)]
CFS = GRID + LS + S("pressure/tpfa/cfs_tpfa_residual.c", "pressure/tpfa/compr_source.c", "wells/wells.c")
CT = INC + S("pressure/tpfa/cfs_tpfa_residual.c", "pressure/tpfa/compr_source.c", "pressure/CompressibleTpfa.cpp")
def cfs(prop, nx, np, rock, **k):
    return dict(name="cfs_p%d_nx%d_np%d_r%d" % (prop, nx, np, rock), src="cfs_res.cpp", sources=CFS, defs=["PROP=%d" % prop, "NX=%d" % nx, "NP=%d" % np, "ROCK=%d" % rock], **k)
CHECKS["C06"] = dict(level="model_checking", note=NOTE, units=[cfs(6, 2, 2, 0), cfs(6, 2, 2, 1), cfs(6, 2, 3, 0), cfs(6, 3, 2, 0)])
CHECKS["C07"] = dict(level="model_checking", note=NOTE, units=[cfs(7, 2, 2, 0), cfs(7, 2, 2, 1)])
CHECKS["C08"] = dict(level="model_checking", note=NOTE, units=[cfs(8, 2, 2, 0)] + [dict(name="compr_tpfa_g%d_w%d" % gw, src="compr_tpfa.cpp", sources=CT, defs=["GRIDK=%d" % gw[0], "WELLK=%d" % gw[1]], env={"SYM_MAXABS": 1}, tiers=["thorough"] if gw[1] == 3 else ["quick", "thorough"]) for gw in ((3, 0), (3, 1), (3, 2), (3, 3), (2, 0))])
MCI = S("utility/MonotCubicInterpolator.cpp")
CHECKS["C15"] = dict(level="model_checking", note=NOTE, units=[dict(name="root_f%d_i%d_w%d" % fi, src="rootfind.cpp", defs=["FORM=%d" % fi[0], "MAXIT=%d" % fi[1], "WIDE=%d" % fi[2]], env={"SYM_MAXABS": 1}, tiers=TH if fi[1] + fi[0] > 2 else None) for fi in ((0, 1, 0), (0, 1, 1), (1, 1, 0), (2, 0, 0), (0, 2, 1), (0, 3, 0), (1, 2, 0))])
CHECKS["C19"] = dict(level="model_checking", note=NOTE, units=[dict(name="lintab_u%d_n%d" % un, src="lintab.cpp", sources=MCI, defs=["UNI=%d" % un[0], "N=%d" % un[1]]) for un in ((0, 2), (0, 4), (1, 2), (1, 3), (2, 2), (2, 4), (3, 2), (3, 3))])
TH = ["thorough"]
CHECKS["C20"] = dict(level="model_checking", note=NOTE, units=[dict(name="cubic_m%d_n%d" % mn[:2], src="monocubic.cpp", sources=MCI, defs=["MODE=%d" % mn[0], "N=%d" % mn[1]], tiers=TH if len(mn) > 2 else None) for mn in ((0, 2), (0, 3), (1, 3), (1, 4, 1), (2, 3), (2, 4, 1), (3, 2), (3, 3), (3, 4, 1), (3, 5, 1))])
PARAM = S("utility/parameters/Parameter.cpp", "utility/parameters/ParameterGroup.cpp", "utility/parameters/ParameterTools.cpp", "utility/parameters/ParameterXML.cpp", "utility/parameters/tinyxml/tinystr.cpp", "utility/parameters/tinyxml/tinyxml.cpp", "utility/parameters/tinyxml/tinyxmlerror.cpp", "utility/parameters/tinyxml/tinyxmlparser.cpp")
BASIC = PARAM + S("props/IncompPropertiesBasic.cpp", "props/BlackoilPropertiesBasic.cpp", "props/pvt/PvtPropertiesBasic.cpp", "props/satfunc/SaturationPropsBasic.cpp", "props/rock/RockBasic.cpp")
CHECKS["C22"] = dict(level="model_checking", note=NOTE, units=[dict(name="basicprops", src="basicprops.cpp", sources=BASIC)])
PVT = MCI + S("props/pvt/SinglePvtInterface.cpp", "props/pvt/SinglePvtDead.cpp", "props/pvt/SinglePvtDeadSpline.cpp", "props/pvt/SinglePvtLiveOil.cpp", "props/pvt/SinglePvtLiveGas.cpp")
def pvt(m, n, **k): return dict(name="pvt_m%d_n%d" % (m, n), src="pvt.cpp", sources=PVT, defs=["MODE=%d" % m, "N=%d" % n], **k)
CHECKS["C23"] = dict(level="model_checking", note=NOTE, units=[pvt(0, 0), pvt(1, 2), pvt(1, 3), pvt(2, 2), pvt(2, 3, tiers=TH)])
CHECKS["C24"] = dict(level="model_checking", note=NOTE, units=[pvt(3, 2), pvt(4, 2), pvt(3, 3, tiers=TH), pvt(4, 3, tiers=TH)])
UT = list(dict.fromkeys(INC + S("utility/miscUtilitiesBlackoil.cpp")))
def ut(name, *defs, **k): return dict(name=name, src="utils.cpp", sources=UT, defs=list(defs), **k)
CHECKS["C26"] = dict(level="model_checking", note=NOTE, units=[ut("rockcomp", "PART=26")])
CHECKS["C27"] = dict(level="model_checking", note=NOTE, units=[ut("volumes_np%d" % n, "PART=27", "NP=%d" % n) for n in (2, 3)])
CHECKS["C28"] = dict(level="model_checking", note=NOTE, units=[ut("mobility_np%d" % n, "PART=28", "NP=%d" % n) for n in (2, 3)])
CHECKS["C29"] = dict(level="model_checking", note=NOTE, units=[ut("wellrates_%d_np%d" % bn, "PART=29", "PARTB=%d" % bn[0], "NP=%d" % bn[1]) for bn in ((0, 2), (1, 2), (1, 3), (2, 2))])
CHECKS["C30"] = dict(level="model_checking", note=NOTE, units=[dict(name="veloc_s%d_b%d" % sb, src="veloc.cpp", sources=list(dict.fromkeys(INC + S("utility/VelocityInterpolation.cpp", "utility/WachspressCoord.cpp"))), defs=["SHAPE=%d" % sb[0], "SYMBOX=%d" % sb[1]], tiers=TH if sb == (1, 1) else None) for sb in ((0, 1), (1, 0), (1, 1), (2, 0))])
GM = list(dict.fromkeys(GRID + PARAM + S("grid/GridManager.cpp", "io/eclipse/EclipseGridParser.cpp")))
CHECKS["C31"] = dict(level="model_checking", note=NOTE, units=[dict(name="grids_m%d" % m, src="grids.cpp", sources=GM, defs=["MODE=%d" % m]) for m in (0, 1, 2)])
TIMER = PARAM + S("simulator/SimulatorTimer.cpp", "io/eclipse/EclipseGridParser.cpp")
CHECKS["C40"] = dict(level="model_checking", note=NOTE, units=[dict(name="timer", src="misc1.cpp", sources=TIMER, defs=["PART=40", "MAXN=3"])])
CHECKS["C48"] = dict(level="model_checking", note=NOTE, units=[dict(name="units", src="misc1.cpp", defs=["PART=48"])])
CHECKS["C35"] = dict(level="model_checking", note=NOTE, units=[dict(name="sparse", src="misc1.cpp", defs=["PART=35"])])
CHECKS["C44"] = dict(level="model_checking", note=NOTE, units=[dict(name="quad%d" % d, src="quad.cpp", sources=GRID, defs=["DIM=%d" % d]) for d in (2, 3)] + [dict(name="quadbox%d" % d, src="quad.cpp", sources=GRID, defs=["DIM=%d" % d, "BOX=1"], env={"SYM_RATIONAL": 1}) for d in (2, 3)])
CHECKS["C32"] = dict(level="model_checking", note=NOTE, units=[dict(name="geom%d" % m, src="geom.cpp", sources=GRID, defs=["MODE=%d" % m], env={"SYM_RATIONAL": 1}) for m in (0, 1, 2, 3)])
SPU = GRID + S("transport/minimal/spu_explicit.c", "transport/minimal/spu_implicit.c")
CHECKS["C45"] = dict(level="model_checking", note=NOTE, units=[dict(name="spu_m%d_n%d_g%d" % m, src="spu.cpp", sources=SPU, defs=["MODE=%d" % m[0], "NX=%d" % m[1], "GRAV=%d" % m[2]]) for m in ((0, 2, 1), (0, 3, 1), (0, 4, 0), (1, 2, 1), (1, 3, 0), (2, 2, 0), (2, 3, 0))])
TOF = GRID + S("tof/TofReorder.cpp", "transport/reorder/ReorderSolverInterface.cpp", "transport/reorder/reordersequence.cpp", "transport/reorder/tarjan.c", "utility/StopWatch.cpp")
CHECKS["C16"] = dict(level="model_checking", note=NOTE, units=[dict(name="tof%d%d_b%d_f%d_m%d" % k, src="tof.cpp", sources=TOF, defs=["NX=%d" % k[0], "NY=%d" % k[1], "BND=%d" % k[2], "FREESRC=%d" % k[3], "MULTI=%d" % k[4]], tiers=TH if k[:4] == (2, 2, 0, 1) else None) for k in ((3, 1, 0, 0, 0), (3, 1, 1, 0, 0), (2, 2, 0, 0, 0), (3, 1, 0, 1, 0), (2, 2, 0, 1, 0), (2, 2, 0, 0, 1), (2, 1, 1, 0, 1))])
REO = list(dict.fromkeys(INC + S("transport/reorder/ReorderSolverInterface.cpp", "transport/reorder/reordersequence.cpp", "transport/reorder/tarjan.c", "transport/TransportSolverTwophaseInterface.cpp", "utility/StopWatch.cpp", "grid/ColumnExtract.cpp")))
REO = [x for x in REO if not x.endswith("ColumnExtract.cpp")]
CHECKS["C12"] = dict(level="model_checking", note=NOTE, units=[dict(name="transp%d%d_k%d_l%d" % k, src="transp.cpp", sources=REO, defs=["PART=12", "NX=%d" % k[0], "NY=%d" % k[1], "KR=%d" % k[2], "LOOP=%d" % k[3]]) for k in ((3, 1, 1, 0), (2, 2, 0, 0), (2, 2, 0, 1))])
CHECKS["C13"] = dict(level="model_checking", note=NOTE, units=[dict(name="segr%d%d_k%d_r%d_v%d" % k, src="transp.cpp", sources=REO, defs=["PART=13", "NX=%d" % k[0], "NZ=%d" % k[1], "KR=%d" % k[2], "REST=%d" % k[3], "VAR=%d" % k[4]], env={"SYM_MAXABS": 1}) for k in ((1, 2, 0, 0, 0), (1, 2, 1, 0, 0), (1, 2, 1, 0, 1), (1, 2, 0, 0, 2), (2, 2, 1, 1, 1), (2, 2, 1, 1, 2), (1, 3, 0, 0, 0), (1, 3, 1, 1, 1))])
REOC = list(dict.fromkeys(REO + S("utility/miscUtilitiesBlackoil.cpp")))
CHECKS["C14"] = dict(level="model_checking", note=NOTE, units=[dict(name="ctransp%d%d_k%d" % k, src="transp.cpp", sources=REOC, defs=["PART=14", "NX=%d" % k[0], "NY=%d" % k[1], "KR=%d" % k[2]]) for k in ((2, 1, 1), (3, 1, 0), (2, 2, 0))])
CHECKS["C13"]["units"] += [dict(name="csegr%d%d_k%d_r%d_v%d" % k, src="transp.cpp", sources=REOC, defs=["PART=15", "NX=%d" % k[0], "NZ=%d" % k[1], "KR=%d" % k[2], "REST=%d" % k[3], "VAR=%d" % k[4]], env={"SYM_MAXABS": 1}, tiers=TH if k == (1, 2, 1, 0, 1) else None) for k in ((1, 2, 0, 0, 0), (1, 2, 1, 0, 1), (1, 2, 0, 0, 1), (1, 2, 1, 0, 2), (2, 2, 1, 1, 1), (1, 3, 0, 0, 0))]
CHECKS["C17"] = dict(level="model_checking", note=NOTE, units=[dict(name="dgbasis%d%s" % (d, "_multilin" if k else ""), src="dgbasis.cpp", sources=GRID + S("tof/DGBasis.cpp"), defs=["DIM=%d" % d, "KF=%d" % k]) for d, k in ((2, 0), (3, 0), (2, 1), (3, 1))])
DGT = list(dict.fromkeys(TOF + PARAM + S("tof/DGBasis.cpp", "tof/TofDiscGalReorder.cpp", "utility/VelocityInterpolation.cpp", "utility/WachspressCoord.cpp")))
def dgt(dim, nx, ny, deg, lim=0, cvi=0, fixq=0, kf=0, **k): return dict(name="dg%d%d%d_g%d_l%d_c%d" % (dim, nx, ny, deg, lim, cvi) + ("_multilin" if kf else ""), src="dgtof.cpp", sources=DGT, defs=["DIM=%d" % dim, "NX=%d" % nx, "NY=%d" % ny, "DEG=%d" % deg, "LIM=%d" % lim, "CVI=%d" % cvi, "FIXQ=%d" % fixq, "KF=%d" % kf], env={"SYM_RATIONAL": 1, "SYM_MAXABS": 0}, **k)
CHECKS["C18"] = dict(level="model_checking", note=NOTE, units=[dgt(2, 2, 2, 0), dgt(2, 2, 2, 1), dgt(2, 2, 1, 1, 0, 1), dgt(3, 2, 1, 1, 0, 0, 1), dgt(2, 2, 1, 1, 1), dgt(2, 2, 1, 1, 1, kf=1)])
def cb(name, src, sources, unwind, *defs, **k): return dict(name=name, engine="cbmc", src=src, sources=sources, unwind=unwind, defs=list(defs), **k)
CBN = "CBMC: bit-precise verdict over all data values; call-sequence shapes and capacities split into cases within the bounds"
def _c38(w, st, f): return cb("cont%d" % w, "cb_cont.c", S(f), 40, "WHICH=%d" % w, "STEPS=%d" % st, "NP=2", shapes=3 * (4 if w == 0 else 3) ** st, thorough=dict(defs=["WHICH=%d" % w, "STEPS=%d" % (st + 1), "NP=2"], shapes=3 * (4 if w == 0 else 3) ** (st + 1)))
CHECKS["C38"] = dict(level="model_checking", note=CBN, units=[_c38(w, 3, f) for w, f in enumerate(("pressure/flow_bc.c", "transport/implicit/transport_source.c", "pressure/tpfa/compr_source.c", "pressure/tpfa/compr_bc.c"))])
WL = S("wells/wells.c")
CHECKS["C37"] = dict(level="model_checking", note=CBN, units=[cb("wells", "cb_wells.c", WL, 9, "STEPS=4", shapes=216, thorough=dict(defs=["STEPS=5"], shapes=1296)), cb("wells_oom", "cb_wells.c", WL, 9, "FAILAT=1", "malloc=cb_malloc", "realloc=cb_realloc", shapes=34)])

TJ = S("transport/reorder/tarjan.c")
def tj(nv, ne, **k): return cb("tarjan_v%d_e%d" % (nv, ne), "cb_tarjan.c", TJ, max(3 * nv, 2 * nv + ne) + 2, "NV=%d" % nv, "NE=%d" % ne, time=1500, **k)
RSQ = S("transport/reorder/tarjan.c", "transport/reorder/reordersequence.cpp", "transport/reorder/ReorderSolverInterface.cpp", "utility/StopWatch.cpp")
CHECKS["C11"] = dict(level="model_checking", note=NOTE + "; tarjan.c alone also bit-precisely by CBMC", units=[dict(name="reorder_g%d" % k, src="reorder.cpp", sources=RSQ, defs=["GRAPH=%d" % k], tiers=TH if k == 5 else None) for k in range(6)] + [dict(name="reorder_g%d_full" % k, src="reorder.cpp", sources=RSQ, defs=["GRAPH=%d" % k, "FULL=1"], tiers=TH) for k in (3, 4)] + [tj(2, 3, tiers=TH), tj(3, 4, tiers=TH)])

CHECKS["C36"] = dict(level="model_checking", note=CBN, units=[cb("csr_m%d_r%d" % (m, r), "cb_csr.c", [], 14, "M=%d" % m, "R=%d" % r, shapes=(r + 1) ** m, flags=["--memory-leak-check"], tiers=t) for m, r, t in ((2, 3, None), (3, 2, None), (3, 3, TH))])

MSP = S("pressure/msmfem/partition.c", "pressure/msmfem/dfs.c"); MSC = S("pressure/msmfem/coarse_conn.c", "pressure/msmfem/hash_set.c")
def part(name, *defs, **k): return dict(name=name, src="part.cpp", sources=MSP + MSC, defs=list(defs), repo_defs=["%s=cb_%s" % (f, f) for f in ("malloc", "free", "realloc", "fmod", "floor")], **k)
CHECKS["C39"] = dict(level="model_checking", note=NOTE + "; partition maps and components bit-precisely by CBMC", units=[cb("part_unif", "cb_part.c", MSP, 10, "WHICH=0", shapes=18), cb("part_map", "cb_part.c", MSP, 8, "WHICH=1", shapes=5), cb("dfs", "cb_part.c", MSP, 20, "WHICH=2", "NV=3", shapes=8),
    part("split3", "WHICH=0", "NV=3", "NN=3", "NB=3"), part("split4", "WHICH=0", "NV=4", "NN=4", "NB=2"), part("intset", "WHICH=1", "NI=3"), part("coarse", "WHICH=2", "NV=3", "NF=3"), part("split4b", "WHICH=0", "NV=4", "NN=5", "NB=3", tiers=TH), part("intset4", "WHICH=1", "NI=4", tiers=TH), part("coarse4", "WHICH=2", "NV=4", "NF=3", tiers=TH)])
GRD = ["malloc=cb_malloc", "free=cb_free", "calloc=cb_calloc", "realloc=cb_realloc"]
def cp(nx, ny, nz, kind, *d, **k): return dict(name="cp%d%d%d_k%d" % (nx, ny, nz, kind) + "".join("_" + x.lower().replace("=", "") for x in d), src="cornerpoint.cpp", sources=GRID, defs=["NX=%d" % nx, "NY=%d" % ny, "NZ=%d" % nz, "KIND=%d" % kind] + list(d), repo_defs=GRD, **k)
CHECKS["C33"] = dict(level="model_checking", note=NOTE, units=[cp(1, 1, 2, 0, "ACT=1"), cp(1, 1, 2, 2, "ACT=1"), cp(1, 1, 3, 2, "ACT=2", tiers=TH), cp(2, 1, 1, 0, "ACT=1"), cp(1, 2, 2, 0, "FIRST=1"), cp(1, 2, 2, 0, "FIRST=1", "ACT=2", tiers=TH), cp(2, 1, 1, 0, "FIRST=1", "GRIDOUT=1", "ACT=1"), cp(2, 1, 2, 0, "FIRST=1", "GRIDOUT=1", tiers=TH), cp(2, 1, 1, 1, "FIRST=1"), cp(1, 2, 1, 1, "FIRST=1", tiers=TH), cp(2, 1, 1, 1, tiers=TH), cp(1, 2, 1, 1, tiers=TH),
    cp(2, 1, 2, 1, "FIRST=1", tiers=TH), cp(2, 1, 1, 1, "FIRST=1", "SLANT=1"), cp(1, 2, 1, 0, "FIRST=1", "YDIR=-1", "GRIDOUT=1"), cp(2, 1, 1, 1, "FIRST=1", "YDIR=-1", tiers=TH), cp(2, 1, 1, 0, "FIRST=1", "ZDIR=-1", "GRIDOUT=1"), cp(1, 2, 1, 1, "FIRST=1", "ZDIR=-1"), cp(2, 1, 1, 0, "FIRST=1", "ZDIR=-1", "SLANT=1"), cp(3, 2, 2, 3)])
def col(part, nx, ny, nz, **k): return dict(name="col%d_%d%d%d" % (part, nx, ny, nz), src="column.cpp", sources=GRID, defs=["PART=%d" % part, "NX=%d" % nx, "NY=%d" % ny, "NZ=%d" % nz], **k)
CHECKS["C34"] = dict(level="model_checking", note=NOTE, units=[col(0, 1, 1, 3), col(0, 2, 1, 3), col(0, 1, 2, 4, tiers=TH), col(1, 1, 2, 3), col(1, 2, 1, 3), col(1, 2, 2, 2), col(1, 1, 1, 5), col(1, 2, 1, 4, tiers=TH)])
IMP = GRID + LS + S("transport/implicit/transport_source.c")
def imp(nx, ny, grav, pc, src, simple, guess, flux=1, **k): return dict(name="imp%d%d_g%d_pc%d_s%d_%d%d" % (nx, ny, grav, pc, src, simple, guess), src="implicit.cpp", sources=IMP, defs=["NX=%d" % nx, "NY=%d" % ny, "GRAV=%d" % grav, "PC=%d" % pc, "SRC=%d" % src, "SIMPLE=%d" % simple, "GUESS=%d" % guess, "CHECKFLUX=%d" % flux], **k)
CHECKS["C46"] = dict(level="model_checking", note=NOTE, units=[imp(2, 1, 0, 0, 1, 0, 1), imp(3, 1, 0, 0, 1, 0, 0), imp(2, 2, 0, 0, 0, 0, 1), imp(2, 1, 1, 0, 0, 1, 1), imp(2, 1, 0, 1, 0, 1, 1), imp(1, 2, 1, 1, 0, 1, 0)])

SATF = list(dict.fromkeys(GM + S("props/satfunc/SatFuncSimple.cpp", "props/satfunc/SatFuncStone2.cpp", "props/satfunc/SatFuncGwseg.cpp", "props/satfunc/SaturationPropsFromDeck.cpp", "utility/MonotCubicInterpolator.cpp")))
def sf(st, ph, *d, **k): return dict(name="satfunc%d_ph%d" % (st, ph) + "".join("_" + x.lower().replace("=", "") for x in d), src="satfunc.cpp", sources=SATF, defs=["SET=%d" % st, "PH=%d" % ph] + list(d), **k)
CHECKS["C21"] = dict(level="model_checking", note=NOTE, units=[sf(st, ph) for st in range(6) for ph in (1, 2, 3)])
def sfe(*d, **k): return dict(name="satfunc_eps" + "".join("_" + x.lower().replace("=", "") for x in d), src="satfunc_eps.cpp", sources=SATF, defs=list(d), **k)
CHECKS["C21"]["units"] += [sf(0, 1, "SYMNODES=1"), sf(0, 2, "SYMNODES=1", "NN=4"), sf(0, 1, "SYMNODES=1", "NN=4", tiers=TH)] + [sfe("PHASE=%d" % p, "SHAPE=%d" % s) for p in (0, 1) for s in (0, 1)]

BODECK = list(dict.fromkeys(SATF + PARAM + S("props/BlackoilPropertiesFromDeck.cpp", "props/IncompPropertiesFromDeck.cpp", "props/rock/RockFromDeck.cpp", "props/pvt/BlackoilPvtProperties.cpp", "props/pvt/PvtPropertiesIncompFromDeck.cpp", "props/pvt/SinglePvtInterface.cpp", "props/pvt/SinglePvtDead.cpp", "props/pvt/SinglePvtDeadSpline.cpp", "props/pvt/SinglePvtLiveOil.cpp", "props/pvt/SinglePvtLiveGas.cpp")))
def bo(ph, oil, gas, **k): return dict(name="bofluid%d_o%d_g%d" % (ph, oil, gas), src="deckfluid.cpp", sources=BODECK, defs=["PH=%d" % ph, "OIL=%d" % oil, "GAS=%d" % gas], **k)
CHECKS["C25"] = dict(level="model_checking", note=NOTE, units=[bo(3, 2, 1), bo(3, 0, 1), bo(3, 2, 0), bo(3, 3, 2), bo(2, 2, 1), bo(2, 0, 0), bo(1, 1, 0), bo(1, 0, 0)])
CHECKS["C51"] = dict(level="model_checking", note=NOTE, units=[dict(name="deckrock", src="deckfluid.cpp", sources=BODECK, defs=["PART=1"]), dict(name="deckincomp", src="deckfluid.cpp", sources=BODECK, defs=["PART=2"])])

GRPS = list(dict.fromkeys(PARAM + S("wells/WellsGroup.cpp", "wells/WellCollection.cpp", "wells/ProductionSpecification.cpp", "wells/InjectionSpecification.cpp", "wells/wells.c", "io/eclipse/EclipseGridParser.cpp")))
def grp(part, np, **k): return dict(name="groups_p%d_np%d%s" % (part, np, "".join("_%s%d" % (a.lower(), b) for a, b in sorted(k.items()))), src="groups.cpp", sources=GRPS, defs=["PART=%d" % part, "NP=%d" % np] + ["%s=%d" % (a, b) for a, b in sorted(k.items())], env={"SYM_MAXABS": 1})
CHECKS["C41"] = dict(level="model_checking", note=NOTE, units=[grp(0, 3, INJ=0), grp(0, 3, INJ=1), grp(0, 2, INJ=0), grp(0, 2, INJ=1), grp(1, 3, KIND=0), grp(1, 3, KIND=1), grp(1, 3, KIND=2), grp(1, 2, KIND=0), grp(1, 2, KIND=2)])

INIT = list(dict.fromkeys(GRID + PARAM + MCI + S("io/eclipse/EclipseGridParser.cpp")))
def ini(name, *defs, **k): return dict(name="init_" + name, src="initstate.cpp", sources=INIT, defs=list(defs), **k)
CHECKS["C42"] = dict(level="model_checking", note=NOTE, units=[ini("incomp", "PART=0", "DIM=3", "NX=1", "NZ=2"), ini("incomp2d", "PART=0", "DIM=2", "NX=2", "NZ=2"), ini("incomp3", "PART=0", "DIM=3", "NX=1", "NZ=3", tiers=TH), ini("deck", "PART=2"), ini("faces", "PART=3")] +
  [ini("bo_d%d_w%d_c%d" % dwc[:3] + ("_flat" if dwc[3:] else ""), "PART=1", "LAYERS=%d" % (1 if dwc[3:] else 5), "DECK=%d" % dwc[0], "WOC=%d" % dwc[1], "COMPR=%d" % dwc[2]) for dwc in ((1, 0, 0), (1, 1, 0), (1, 2, 0), (1, 3, 0), (1, 4, 0), (0, 0, 0), (0, 5, 0), (1, 0, 1), (1, 1, 1), (1, 3, 1), (1, 4, 1), (0, 5, 1), (1, 0, 0, 1), (1, 3, 0, 1))])

MIM = GRID + S("pressure/mimetic/mimetic.c")
def mim(name, *defs, **k): return dict(name="mim_" + name, src="mimetic.cpp", sources=MIM, defs=list(defs), **k)
CHECKS["C09"] = dict(level="model_checking", note=NOTE, units=[mim("box2", "PART=0", "DIM=2", "DIAG=0", "PD=0"), mim("box3", "PART=0", "DIM=3", "DIAG=0", "PD=0"), mim("irr2", "PART=1", "DIM=2", "DIAG=0", "PD=0"), mim("irr3", "PART=1", "DIM=3", "DIAG=0", "PD=0", "SHAPE0=2"), mim("irr3_all", "PART=1", "DIM=3", "DIAG=0", "PD=0", "SHAPE0=0", tiers=TH), mim("upd2", "PART=2", "DIM=2"), mim("upd3", "PART=2", "DIM=3"), mim("pd2", "PART=0", "DIM=2", "DIAG=1", "PD=1"), mim("pd2_full", "PART=0", "DIM=2", "DIAG=0", "PD=1", tiers=TH), mim("pd3", "PART=0", "DIM=3", "DIAG=1", "PD=1")])
HYB = LS + S("pressure/fsh.c", "pressure/ifsh.c", "pressure/cfsh.c", "pressure/fsh_common_impl.c", "pressure/legacy_well.c", "pressure/flow_bc.c", "pressure/mimetic/hybsys.c", "pressure/mimetic/hybsys_global.c", "pressure/msmfem/hash_set.c")
CHECKS["C10"] = dict(level="model_checking", note=NOTE, units=[dict(name="hybrid_" + n, src="hybrid.cpp", sources=HYB, defs=["WELLS=%d" % w, "COMPR=%d" % c, "ROUNDS=%d" % r]) for n, w, c, r in (("grid", 0, 0, 0), ("wells", 1, 0, 0), ("compr", 0, 1, 0), ("again", 1, 0, 1))])

DECK = S("io/eclipse/EclipseGridParser.cpp")
def dk(name, part, *d, **k): return dict(name="deck_" + name, src="deckparse.cpp", extra=["streamhook.cpp"], sources=DECK, defs=["PART=%d" % part] + list(d), **k)
CHECKS["C50"] = dict(level="model_checking", note="deck texts of the listed keywords and layouts with every number symbolic; extraction of a double from the stream is replaced by the same extraction with marker numbers standing for symbolic values", units=[dk("fields", 0), dk("tables", 1), dk("schedule", 2), dk("polymer", 3), dk("defaults", 4), dk("again", 5)])

INSP = DECK + S("io/eclipse/EclipseGridInspector.cpp") + PARAM
def insp(name, part, *d, **k): return dict(name="insp_" + name, src="inspect.cpp", extra=["streamhook.cpp"], sources=INSP, defs=["PART=%d" % part] + list(d), **k)
CHECKS["C49"] = dict(level="model_checking", note=NOTE, units=[insp("volume", 0), insp("limits_x", 1, "ALONG=0"), insp("limits_y", 1, "ALONG=1"), insp("limits_z", 1, "ALONG=2"), insp("dips", 2), insp("chop", 3), insp("chop_free", 3, "FREEZ", tiers=TH)])
