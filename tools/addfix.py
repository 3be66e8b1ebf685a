#!/usr/bin/env python3
"""addfix.py PROP [commit] : record /repo commit (default HEAD) as a repaired defect"""
import json, subprocess, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f)); c = sys.argv[2] if len(sys.argv) > 2 else "HEAD"
h, s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip().split(" ", 1)
assert s.startswith("fix: ")
l = "fixed: property=%s %s %s" % (sys.argv[1], h, s[5:])
if l not in k["fixed"]: k["fixed"].append(l)
json.dump(k, open(f, "w"), indent=1); print(l)
