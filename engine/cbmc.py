"""CBMC back end for the repository's C code: goto-cc translates the current sources, cbmc (SAT over bit-vectors and
IEEE doubles) decides every assertion and memory-safety obligation within the unwinding bound; counterexamples are
replayed by a native build with address/undefined sanitizers."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, time

def run_one(u, tier, drv):
    d = os.path.join(drv.BUILD, "cbmc", "%s-%d" % (u["name"], os.getpid())); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    res = {"unit": u["name"], "stats": {}, "rc": 0, "wall": 0, "confirmed": [], "unconfirmed": [], "problems": [], "witness": [], "cov": []}
    t0 = time.time()
    srcs = [os.path.join(drv.VERIF, "harness", u["src"])] + [os.path.join(drv.REPO, s) for s in u["sources"]]
    base = ["-D" + x for x in u["defs"]] + ["-D_GNU_SOURCE", "-DHAVE_CONFIG_H=1", "-I" + drv.ENG, "-I" + os.path.join(drv.VERIF, "harness"), "-I" + os.path.join(drv.ENG, "config"), "-I" + drv.REPO]
    gb, exe = os.path.join(d, "h.goto"), os.path.join(d, "native")
    r = drv.sh(["goto-cc", "-DCB_CBMC", "--function", "harness"] + base + srcs + ["-o", gb])
    if r.returncode: raise drv.Fail("goto-cc failed (%s): %s" % (u["name"], r.stdout[-3000:]))
    def native():
      if os.path.exists(exe): return
      r = drv.sh(["gcc", "-g", "-w", "-O0", "-std=gnu99", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DCB_NATIVE"] + base + srcs + [os.path.join(drv.ENG, "cb_native.c"), "-o", exe, "-lm"])
      if r.returncode: raise drv.Fail("native build failed (%s): %s" % (u["name"], r.stdout[-3000:]))
    lim = int(u.get("time", 600))
    cmd = ["cbmc", gb, "--function", "harness", "--json-ui", "--trace", "--unwind", str(u["unwind"]), "--unwinding-assertions", "--no-malloc-may-fail", "--bounds-check", "--pointer-check", "--signed-overflow-check", "--div-by-zero-check", "--object-bits", str(u.get("object_bits", 9)), "--drop-unused-functions", "--slice-formula"] + u.get("flags", [])
    for k, v in u.get("unwindset", {}).items(): cmd += ["--unwindset", "%s:%d" % (k, v)]
    try:
        p = subprocess.run(["prlimit", "--as=%d" % (int(u.get("mem", 5)) << 30), "timeout", str(lim)] + cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    except Exception as e:
        raise drv.Fail("cbmc: %s" % e)
    res["wall"] = round(time.time() - t0, 2)
    try: js = json.loads(p.stdout)
    except Exception:
        res["problems"].append("cbmc gave no answer (exit %d): %s" % (p.returncode, p.stdout[-300:])); res["stats"] = {"checks": 0}; return res
    props = []; solver = 0.0; vcc = 0; errs = []
    for o in js:
        if "result" in o: props = o["result"]
        t = o.get("messageText", "")
        m = re.match(r"Runtime (?:Solver|decision procedure): ([0-9.e-]+)s", t, re.I)
        if m: solver = max(solver, 0) + float(m.group(1))
        m = re.match(r"Generated (\d+) VCC", t)
        if m: vcc = int(m.group(1))
        if o.get("messageType") == "ERROR": errs.append(t)
    if p.returncode not in (0, 10) or not props:
        res["problems"].append("cbmc exit %d: %s" % (p.returncode, "; ".join(errs)[:400])); res["stats"] = {"checks": 0}; return res
    fails = [x for x in props if x["status"] != "SUCCESS"]
    reach = [x for x in fails if x["description"].startswith("REACH")]
    unw = [x for x in fails if "unwinding assertion" in x["description"] or "recursion unwinding" in x["description"]]
    bad = [x for x in fails if x not in reach and x not in unw and x["status"] == "FAILURE"]; unk = [x for x in fails if x not in reach and x not in unw and x["status"] != "FAILURE"]
    if unk and not bad: res["problems"].append("no verdict on %d obligations" % len(unk))
    ndecl = len([x for x in props if x["description"].startswith("REACH")])
    res["stats"] = {"paths": 1, "branches": vcc, "checks": len(props) - ndecl, "proved": len(props) - ndecl - len(bad) - len(unw), "qUnsat": len(props) - len(fails), "qSat": len(fails), "solverUs": int(solver * 1e6), "witnessSat": len(reach)}
    res["cov"] = sorted(set("%s:%s" % (os.path.relpath(x["sourceLocation"]["file"], drv.REPO), x["sourceLocation"].get("function", "")) for x in props if x.get("sourceLocation", {}).get("file", "").startswith(drv.REPO)))
    def inputs(x):
        r = []
        for s in x.get("trace", []):
            if s.get("stepType") == "input":
                v = s["values"][0]; b = v.get("binary") or v.get("value", {}).get("binary")
                if b is None: b = bin(int(v.get("data", 0)) & (2**64 - 1))[2:]
                r.append((s.get("inputID", "?"), "%x" % int(b, 2), str(v.get("data", ""))))
        return r
    def replay(x, path, lab):
        native()
        with open(path, "w") as f:
            f.write("label %s\n" % lab)
            for n, h, v in inputs(x): f.write("%s %s %s\n" % (n, h, v))
        return drv.sh([exe, path], timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:allocator_may_return_null=1" % (1 if "--memory-leak-check" in u.get("flags", []) else 0)))
    keep = os.path.join(drv.BUILD, "replay", u["property"]); os.makedirs(keep, exist_ok=True); seen = set(); tried = {}
    for x in bad:
        lab = x["description"]; lab = lab if len(lab) < 160 else lab[:160]
        if lab in seen or tried.get(lab, 0) > 5 or len(res["confirmed"]) > 8: continue
        tried[lab] = tried.get(lab, 0) + 1
        dst = os.path.join(keep, "%s-%d.txt" % (u["name"], len(res["confirmed"])))
        r = replay(x, dst, lab)
        if r.returncode not in (0, 77):
            seen.add(lab); ke = os.path.join(keep, u["name"] + "-native"); shutil.copy(exe, ke)
            ls = [l for l in r.stdout.split("\n") if l.startswith("FAIL ") or "ERROR: AddressSanitizer" in l or "runtime error" in l or "LeakSanitizer" in l or "Assertion" in l] or ["exit %d" % r.returncode]
            with open(dst, "a") as f: f.write("# reproduce: %s %s\n# %s\n" % (ke, dst, "\n# ".join(r.stdout.split("\n")[:30])))
            res["confirmed"].append({"label": lab, "native": [l[:200] for l in ls[:3]], "replay": dst})
    for lab in tried:
        if lab not in seen:
            x = [y for y in bad if y["description"][:160] == lab][0]
            # bug-free native run of a failing obligation: no confirmation
            res["unconfirmed"].append({"label": lab, "model": str(inputs(x))[:1000]})
    if res["confirmed"]: res["unconfirmed"] = []
    if unw: res["problems"].append("unwinding bound %d too small: %s" % (u["unwind"], ", ".join(sorted(set(x["property"] for x in unw)))[:300]))
    if ndecl == 0 or not reach: 
        if not res["confirmed"]: res["problems"].append("vacuous: the end of the harness is not reached (%d of %d)" % (len(reach), ndecl))
    for x in reach[:2] if u.get("shape", 0) in (0, u.get("shapes", 1) // 2) else []:
        pth = os.path.join(d, "wit.txt"); r = replay(x, pth, "witness")
        res["witness"].append({"inputs": ["%s=%s" % (a, c) for a, b, c in inputs(x)][:12], "native": "OK" if r.returncode == 0 else (r.stdout.strip().split("\n") or [""])[-1][:200] + " exit %d" % r.returncode})
    if not os.environ.get("SYM_KEEP"): shutil.rmtree(d, ignore_errors=True)
    return res

def run_units(units, tier, drv):
    todo = []
    for u in units:
        if u.get("shapes"):
            for k in range(u["shapes"]): todo.append(dict(u, name="%s_s%d" % (u["name"], k), group=u["name"], shape=k, defs=u["defs"] + ["SHAPE=%d" % k]))
        else: todo.append(dict(u, group=u["name"]))
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda u: run_one(u, tier, drv), todo))
    out = {}
    for u, r in zip(todo, rs):
        if u["group"] not in out: r["unit"] = u["group"]; out[u["group"]] = r; continue
        o = out[u["group"]]
        for k, v in r["stats"].items(): o["stats"][k] = o["stats"].get(k, 0) + v
        o["wall"] = round(o["wall"] + r["wall"], 2); o["cov"] = sorted(set(o["cov"]) | set(r["cov"]))
        have = set(c["label"] for c in o["confirmed"])
        o["confirmed"] += [c for c in r["confirmed"] if c["label"] not in have]
        for k in ("unconfirmed", "problems", "witness"): o[k] += r[k]
    for o in out.values():
        have = set(c["label"] for c in o["confirmed"])
        if have: o["unconfirmed"] = []
        o["problems"] = o["problems"][:6]
    return list(out.values())
