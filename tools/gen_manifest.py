#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vc.py setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified sources and intercept calls between translation units with ld --wrap", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check compiles the current sources of /repo in a scratch directory and explores the real code; python3 vc.py <id> replay <file> re-runs a violation. The fix: commits in /repo are listed in known_findings.txt."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 vc.py %s quick" % i, "thorough_cmd": "python3 vc.py %s thorough" % i,
            "technique": c["technique"], "level": "model_checking",
            "level_note": "Exhaustive within: " + c["bounds"] + ". Assumes: " + "; ".join(c.get("assumptions", []) or ["nothing further"]) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_CLAIMED.get(i, "no check built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
