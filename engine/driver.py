#!/usr/bin/env python3
"""Driver: builds the engine and the harnesses from /repo's current tree, runs them, replays findings
natively, writes evidence/<id>.json.  usage: driver.py <property> [quick|thorough]"""
import sys; sys.dont_write_bytecode = True
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
BUILD = os.path.join(VERIF, ".build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG, CLANGXX = "/usr/bin/clang", "/usr/bin/clang++"
JOBS = 8
sys.path.insert(0, os.path.join(VERIF, "checks"))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

class Fail(Exception):
    pass

def llvm_flags():
    for c in ("/usr/lib/llvm-18/bin/llvm-config", "llvm-config-18"):
        try:
            return subprocess.check_output([c, "--cxxflags"], text=True).split()
        except Exception:
            pass
    return ["-I/usr/lib/llvm-18/include", "-std=c++17", "-fno-exceptions"]

def ensure_engine():
    d = os.path.join(BUILD, "engine"); os.makedirs(d, exist_ok=True)
    jobs = []
    def need(src, out, cmd):
        srcs = [os.path.join(ENG, s) for s in src]
        key = fhash(srcs, " ".join(cmd)); k = out + ".key"
        if os.path.exists(out) and os.path.exists(k) and open(k).read() == key:
            return
        jobs.append((cmd + ["-o", out + ".tmp%d" % os.getpid()], out, key))
    pl, rt, nt = (os.path.join(d, x) for x in ("SymFP.so", "symrt.o", "native.o"))
    need(["SymFP.cpp"], pl, [CLANGXX, "-shared", "-fPIC", "-O1"] + llvm_flags() + [os.path.join(ENG, "SymFP.cpp")])
    need(["symrt.cpp", "sym.h"], rt, ["g++", "-O2", "-w", "-std=c++17", "-c", "-I" + Z3 + "/include", "-I" + ENG, os.path.join(ENG, "symrt.cpp")])
    need(["native.cpp", "sym.h"], nt, ["g++", "-O1", "-w", "-c", "-I" + ENG, os.path.join(ENG, "native.cpp")])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r, (cmd, out, key) in zip(ex.map(lambda j: sh(j[0]), jobs), jobs):
            if r.returncode:
                raise Fail("engine build failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
            os.replace(cmd[-1], out); open(out + ".key", "w").write(key)
    return pl, rt, nt

def tree_files():
    r = []
    for dp, dn, fn in os.walk(os.path.join(REPO, "opm")):
        for f in fn:
            if f.endswith((".h", ".hpp", ".c", ".cpp")):
                r.append(os.path.join(dp, f))
    return r

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        _tree = fhash(tree_files())
    return _tree

CFLAGS = ["-std=c99", "-DUF_long=long", "-DHAVE_CONFIG_H=1", "-D_GNU_SOURCE"]
CXXFLAGS = ["-std=c++11", "-DHAVE_CONFIG_H=1"]
INC = ["-I" + ENG, "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(ENG, "config"), "-I" + REPO, "-I/usr/include/suitesparse"]

def compile_cmd(src, out, mode, defs, plugin):
    c = src.endswith(".c")
    cmd = [CLANG if c else CLANGXX] + (CFLAGS if c else CXXFLAGS) + INC + ["-w", "-D" + ("SYM_SYMBOLIC" if mode == "sym" else "SYM_NATIVE")] + ["-D" + d for d in defs]
    if mode == "sym":
        cmd += ["-O0", "-gline-tables-only", "-fno-inline", "-frounding-math", "-ffp-contract=off", "-fno-builtin-memcmp", "-fpass-plugin=" + plugin]
    else:
        cmd += ["-O0", "-g1", "-ffp-contract=off"]
    return cmd + ["-c", src, "-o", out]

def build(units, tier, plugin, rt, nt):
    """units: list of resolved unit dicts (engine symfork). returns {name: (symexe, nativeexe)}"""
    th = tree_hash()
    objroot = os.path.join(BUILD, "obj"); os.makedirs(objroot, exist_ok=True)
    objdir = os.path.join(objroot, th); os.makedirs(objdir, exist_ok=True)
    for d in sorted(glob.glob(objroot + "/*"), key=os.path.getmtime)[:-3]:
        if d != objdir: shutil.rmtree(d, ignore_errors=True)
    ekey = fhash([os.path.join(ENG, "SymFP.cpp"), os.path.join(ENG, "sym.h"), os.path.join(ENG, "blas_ref.c")])
    hfiles = [f for f in glob.glob(os.path.join(VERIF, "harness", "*")) if os.path.isfile(f)]
    todo, plan = {}, {}
    env = dict(os.environ, SYMFP_ROOT=REPO + "/")
    def obj(src, mode, defs):
        own = src.startswith(VERIF)
        key = hashlib.sha256(" ".join([src, mode, ekey, ",".join(defs), fhash(hfiles) if own else ""]).encode()).hexdigest()[:16]
        o = os.path.join(objdir, os.path.basename(src).replace(".", "_") + "-" + mode + "-" + key + ".o")
        if not os.path.exists(o):
            todo[o] = compile_cmd(src, o + ".tmp%d.o" % os.getpid(), mode, defs, plugin)
        return o
    for u in units:
        for mode in ("sym", "native"):
            srcs = [os.path.join(VERIF, "harness", u["src"])] + [os.path.join(VERIF, "harness", s) for s in u.get("extra", [])]
            ob = [obj(s, mode, u["defs"]) for s in srcs]
            ob += [obj(os.path.join(REPO, s), mode, u.get("repo_defs", [])) for s in u["sources"]]
            if mode == "sym": ob.append(obj(os.path.join(ENG, "blas_ref.c"), mode, []))
            plan[(u["name"], mode)] = ob
    def run1(item):
        o, cmd = item
        r = sh(cmd, env=env)
        if r.returncode == 0:
            os.replace(cmd[-1], o)
        return r, o, cmd
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r, o, cmd in ex.map(run1, todo.items()):
            if r.returncode:
                raise Fail("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    exes = {}
    bindir = os.path.join(BUILD, "bin"); os.makedirs(bindir, exist_ok=True)
    libs = ["-lboost_date_time", "-lboost_filesystem", "-lboost_system", "-lm", "-lrt"]
    links = []
    for (name, mode), ob in plan.items():
        exe = os.path.join(bindir, "%s-%s-%d" % (name, mode, os.getpid()))
        if mode == "sym":
            cmd = ["g++", rt] + ob + ["-L" + Z3 + "/lib", "-Wl,-rpath," + Z3 + "/lib", "-lz3", "-lgmpxx", "-lgmp", "-lpthread"] + libs
        else:
            cmd = ["g++", nt] + ob + ["-llapack", "-lblas"] + libs
        links.append((name, mode, exe, cmd + ["-Wl,--gc-sections", "-o", exe]))
    missing = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r, (name, mode, exe, cmd) in zip(ex.map(lambda l: sh(l[3]), links), links):
            if r.returncode:
                raise Fail("link failed (%s %s):\n%s" % (name, mode, r.stdout[-3000:]))
            exes.setdefault(name, {})[mode] = exe
    return exes

def read_stats(p):
    d = {}
    try:
        for l in open(p):
            k, v = l.split(); d[k] = int(v)
    except Exception:
        pass
    return d

def run_symfork(u, exes, tier):
    out = os.path.join(BUILD, "run", "%s-%d" % (u["name"], os.getpid()))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    env = dict(os.environ, MALLOC_PERTURB_="165")
    env.update({k: str(v) for k, v in u.get("env", {}).items()})
    env.setdefault("SYM_TIME", "600")
    t0 = time.time()
    try:
        with open(os.path.join(out, "stdout"), "w") as so, open(os.path.join(out, "stderr"), "w") as se:
            dbg = None if os.environ.get("SYM_DEBUG") else se
            p = subprocess.Popen([exes[u["name"]]["sym"], out], stdout=so, stderr=dbg, env=env, start_new_session=True)
            try:
                rc = p.wait(timeout=float(env["SYM_TIME"]) + 120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait(); rc = -999
    except OSError as e:
        raise Fail(str(e))
    st = read_stats(os.path.join(out, "stats.txt"))
    try: os.killpg(p.pid, 9)
    except Exception: pass
    res = {"unit": u["name"], "stats": st, "rc": rc, "wall": round(time.time() - t0, 2), "confirmed": [], "unconfirmed": [], "problems": [], "witness": []}
    def rd(f):
        try: return open(os.path.join(out, f), errors="replace").read()
        except Exception: return ""
    res["cov"] = sorted(set(x for x in rd("cov.txt").split("\n") if ":" in x and not x.endswith("\0")))
    log = [l for l in rd("log.txt").split("\n") if l.strip()]
    if rc != 0: res["problems"].append("engine exit status %d" % rc)
    if not st: res["problems"].append("no statistics written")
    if st.get("truncated"): res["problems"].append("exploration truncated: " + "; ".join(l for l in log if "LIMIT" in l or "floor" in l or "symbolic" in l or "derivative" in l)[:300])
    if st.get("crashed"): res["problems"].append("path process died: " + "; ".join(l for l in log if "died" in l)[:300])
    if st.get("inconclusive"): res["problems"].append("solver gave no answer: " + "; ".join(sorted(set(l for l in log if l.startswith(("UNKNOWN", "NOMODEL")))))[:800])
    if not st.get("checks"): res["problems"].append("vacuous: no check reached")
    # a path ends at its first violated check, so a unit whose every path is violated has no complete path
    if not st.get("witnessSat") and not glob.glob(out + "/viol_*.txt"): res["problems"].append("vacuous: no satisfiable complete path")
    # replay
    nat = exes[u["name"]]["native"]
    keep = os.path.join(BUILD, "replay", u["property"]); os.makedirs(keep, exist_ok=True)
    by = {}
    for f in sorted(glob.glob(out + "/viol_*.txt")):
        by.setdefault(open(f).readline()[6:].strip(), []).append(f)
    for lab, files in by.items():
        ok = None
        for f in files[:12]:
            r = sh([nat, f], env=dict(env), timeout=120)
            fails = [l[5:] for l in r.stdout.split("\n") if l.startswith("FAIL ")]
            if fails:
                ok = (f, fails, r.stdout); break
        if ok:
            dst = os.path.join(keep, "%s-%d.txt" % (u["name"], len(res["confirmed"])))
            exe = os.path.join(keep, u["name"] + "-native"); shutil.copy(nat, exe)
            with open(dst, "w") as o:
                o.write(open(ok[0]).read()); o.write("# reproduce: %s %s\n" % (exe, dst))
                for l in ok[2].split("\n")[-40:]: o.write("# " + l + "\n")
            labs = ok[1] if lab not in ok[1] else [lab]
            res["confirmed"].append({"label": lab, "native": labs[:3], "replay": dst})
        else:
            res["unconfirmed"].append({"label": lab, "model": open(files[0]).read()[:2000]})
    for f in sorted(glob.glob(out + "/wit_*.txt"))[:3]:
        r = sh([nat, f], env=dict(env, SYM_VERBOSE="1"), timeout=120)
        res["witness"].append({"inputs": [l.strip() for l in open(f).read().split("\n")[1:12] if l], "native": "OK" if r.returncode == 0 else r.stdout.strip().split("\n")[-1][:200]})
    if not os.environ.get("SYM_KEEP"): shutil.rmtree(out, ignore_errors=True)
    return res

def load_known():
    try: return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except Exception: return []

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import specs
    spec = specs.CHECKS[pid]
    results, problems = [], []
    units = []
    for u in spec["units"]:
        if u.get("tiers") and tier not in u["tiers"]: continue
        if only and u["name"] not in only: continue
        v = dict(u); v["property"] = pid
        if tier == "thorough":
            v.update(u.get("thorough", {}))
        v.setdefault("defs", []); v.setdefault("sources", [])
        units.append(v)
    try:
        sf = [u for u in units if u.get("engine", "symfork") == "symfork"]
        if sf:
            pl, rt, nt = ensure_engine()
            tb = time.time()
            exes = build(sf, tier, pl, rt, nt)
            for u in sf: results.append(run_symfork(u, exes, tier))
            for e in exes.values():
                for x in e.values():
                    try: os.environ.get("SYM_KEEP") or os.remove(x)
                    except OSError: pass
        cb = [u for u in units if u.get("engine") == "cbmc"]
        if cb:
            import cbmc
            results += cbmc.run_units(cb, tier, sys.modules[__name__])
    except Fail as e:
        problems.append(str(e))
    except subprocess.TimeoutExpired as e:
        problems.append("timeout: %s" % e)
    known = load_known(); viol = []; kn = []
    for r in results:
        for c in r["confirmed"]:
            k = [f for f in known if f.get("property") == pid and f.get("status", "open") == "open" and f.get("unit") == r["unit"] and f.get("label") == c["label"]]
            if k: kn.append((k[0], c))
            else: viol.append((r["unit"], c))
        for c in r["unconfirmed"]:
            problems.append("unit %s: counterexample for '%s' did not reproduce natively" % (r["unit"], c["label"]))
        for p in r["problems"]: problems.append("unit %s: %s" % (r["unit"], p))
    import bounds; B = bounds.B.get(pid, ("", "", "", ""))
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)
    cov = sorted(set(c for r in results for c in r.get("cov", [])))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": {
              "explanation": spec.get("explanation", "symbolic execution of the compiled repository code; every check is an SMT query over all input values within the bounds"),
              "method": B[0], "bounds": B[1], "stubs_and_stand_ins": B[2], "outside_the_bounds": B[3],
              "units": [{"unit": u["name"], "bounds": "parameters %s; %s" % (" ".join(u.get("defs") or ["none"]), B[1]), "stubs": B[2], "sources": u["sources"]} for u in units],
              "functions_encoded": cov, "n_functions_encoded": len(cov),
              "solver_queries": S("qSat") + S("qUnsat") + S("qUnknown"), "queries_unsat": S("qUnsat"), "queries_sat": S("qSat"), "queries_unknown": S("qUnknown"),
              "decided_by_interval_or_syntax": S("qInterval"),
              "obligations": S("checks"), "discharged": S("proved"), "solver_time_s": round(S("solverUs") / 1e6, 2),
              "satisfiable_path_witnesses": S("witnessSat"),
              "per_unit": [{k: r[k] for k in ("unit", "stats", "wall") if k in r} for r in results],
              "samples": [w for r in results for w in r.get("witness", [])][:8],
              "checker_cmd": "python3 engine/driver.py %s %s" % (pid, tier),
              "trusted_base": ["clang 18 front end", "engine/SymFP.cpp, engine/symrt.cpp", "z3 5.3 / cvc5 / cbmc verdicts", "harness oracles and stubs"],
              "states": S("paths"), "transitions": S("branches"), "states_meaning": "explored paths; transitions: branch decisions on symbolic conditions", "traces_validated_against_impl": sum(1 for r in results for w in r.get("witness", []) if w["native"] == "OK"),
              "problems": problems},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for l in dict.fromkeys("KNOWN-FINDING: property=%s %s" % (pid, k.get("what", c["label"])) for k, c in kn): print(l)
    for r in results:
        print("unit %s: paths=%d checks=%d proved=%d queries=%d solver=%.1fs wall=%.1fs" % (r["unit"], r["stats"].get("paths", 0), r["stats"].get("checks", 0), r["stats"].get("proved", 0), sum(r["stats"].get(k, 0) for k in ("qSat", "qUnsat", "qUnknown")), r["stats"].get("solverUs", 0) / 1e6, r["wall"]))
        for w in r.get("witness", []):
            if w["native"] != "OK": print("  note: native witness run: " + w["native"])
    for un, c in viol:
        print("  violated in %s: %s (native: %s)" % (un, c["label"], "; ".join(c["native"])))
        print("VIOLATION property=%s replay=%s" % (pid, c["replay"]))
    if viol: sys.exit(1)
    for p in problems: print("INCONCLUSIVE property=%s %s" % (pid, p))
    sys.exit(2 if problems else 0)

if __name__ == "__main__":
    main()
