#!/usr/bin/env python3
"""One minimal fix commit in /repo and its line in known_findings.json (development aid).
fix(prop, file, [(old, new)], message, what failed)"""
import json, subprocess
def fix(prop, f, pairs, msg, what):
    p = "/repo/opm/core/" + f; s = open(p).read()
    for a, b in pairs:
        assert s.count(a) == 1, (a, s.count(a)); s = s.replace(a, b)
    open(p, "w").write(s)
    subprocess.check_call(["git", "-C", "/repo", "add", p]); subprocess.check_call(["git", "-C", "/repo", "commit", "-qm", "fix: " + msg])
    h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
    note(prop, h, what)
def note(prop, h, what):
    p = "/verif/known_findings.json"; k = json.load(open(p)); k["fixed"].append("fixed: property=%s %s %s" % (prop, h, what)); json.dump(k, open(p, "w"), indent=1); print(h, what)
