#!/usr/bin/env python3
"""writes MANIFEST.json from registry.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=s.get("technique", "explicit-state model checking of the real code: exhaustive enumeration of operation histories against a reference model"),
            level=s["level"], level_note="Exhaustive within the stated bounds, on the real code compiled from /repo (ASan). Bounds: " + s["bounds"]["quick"] + " (thorough: " + s["bounds"]["thorough"] + "). Oracle: " + s["oracle"] + ". Trusts: the oracle, gcc, AddressSanitizer, glibc." + (" Assumes: " + "; ".join(s["assumptions"]) + "." if s.get("assumptions") else "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "its check is not built yet")))
m = dict(version=1, setup_cmd="python3 check.py build", hooks=dict(guard="HARBOL_VERIF", enable="no hooks were needed: the harnesses link /repo's sources with linker-level --wrap seams; -DHARBOL_VERIF would enable them if there were any", source_commits=[]),
    checks=checks, not_applicable=na, notes="Replay a violation: python3 check.py <id> replay replays/<id>.json")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
