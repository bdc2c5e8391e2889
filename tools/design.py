import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def write(props, specs, bounds):
    o = open(V + "/tools/design_head.md").read() + "\n## 2. Per property\n"
    for p in props.PROPS:
        i = p["id"]; o += "\n### %s %s\n" % (i, p["title"])
        if i in specs.CHECKS:
            how, bnd, stubs, outside = bounds.B[i]; u = specs.CHECKS[i]["units"]
            o += how + "\n- *Bounds:* " + bnd + "\n"
            if stubs: o += "- *Stand-ins:* " + stubs + "\n"
            if outside: o += "- *Outside:* " + outside + "\n"
            q = [x["name"] for x in u if "quick" in (x.get("tiers") or ["quick"])]; t = [x["name"] for x in u if "quick" not in (x.get("tiers") or ["quick"])]
            o += "- *Units:* " + ", ".join(q) + (("; thorough only: " + ", ".join(t)) if t else "") + " (" + ("cbmc" if any(x.get("engine") == "cbmc" for x in u) else "symfork") + (", symfork" if len(set(x.get("engine") for x in u)) > 1 else "") + ")\n"
        else: o += "Not applicable: " + specs.NA.get(i, "no check built yet") + "\n"
    kf = json.load(open(V + "/known_findings.json")); kf = kf["fixed"] + kf["findings"]
    o += "\n## 3. Genuine defects found by the checks\n\nEach was first reported as a natively reproduced counterexample. Repaired (one `fix:` commit each in /repo):\n\n"
    for k in kf:
        if isinstance(k, str): o += "- " + k.replace("fixed: ", "") + "\n"
        elif k.get("status") == "fixed": o += "- %s %s: %s\n" % (k["property"], k.get("commit", ""), k.get("what", ""))
    o += "\nRecorded, not repaired (existing tests fix the present behaviour, or the intended behaviour is not decidable from the code):\n\n"
    for k in kf:
        if isinstance(k, dict) and k.get("status", "open") == "open": o += "- %s (unit %s, \"%s\"): %s\n" % (k["property"], k["unit"], k["label"], k["what"])
    o += "\n## 4. Planted bugs\n\n`tools/seed.py` confirms each (builds, stable tests pass, demonstration fails only with the patch). The last column is what the property's quick check said.\n\n| id | property | needs | caught |\n|---|---|---|---|\n"
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(m)); o += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d.get("caught_by", ""))
    if os.path.exists(V + "/tools/design_tail.md"): o += "\n" + open(V + "/tools/design_tail.md").read()
    open(V + "/DESIGN.md", "w").write(o)
