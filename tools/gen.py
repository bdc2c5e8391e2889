#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/props.py and checks/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks"); sys.dont_write_bytecode = True
import props, specs
with open(V + "/properties.jsonl", "w") as o:
    for p in props.PROPS: o.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": [],
     "notes": "Solver-based checking. engine/ holds the symbolic executor (LLVM pass + run-time + z3) and the CBMC driver; see DESIGN.md."}
for p in props.PROPS:
    i = p["id"]
    if i in specs.CHECKS:
        c = specs.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 engine/driver.py %s quick" % i, "thorough_cmd": "python3 engine/driver.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "symbolic execution of compiled code + SMT (z3)"), "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": specs.NA.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
import bounds
sys.path.insert(0, V + "/tools"); import design; design.write(props, specs, bounds)
