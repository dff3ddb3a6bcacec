#!/usr/bin/env python3
"""bug.py ID...: qualify a planted bug (applied to /repo, undone afterwards): builds, passes the stable tests, demo distinguishes, check catches it.
   bug.py --check ID...: only run the check against a scratch copy with the patch."""
import json, os, subprocess, sys, shutil, tempfile
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def check(i):
    d = os.path.join(H, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="bug-")
    try:
        sh("cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (t, t, os.path.abspath(d)))
        r = sh("VC_REPO=%s timeout 900 python3 %s/vc.py %s quick" % (t, H, prop))
        return prop, r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("violated", "VIOL", "ERR"))][:2] or r.stdout[-300:]
    finally:
        shutil.rmtree(t)
def qualify(i):
    d = os.path.abspath(os.path.join(H, "seeded", i))
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    t = tempfile.mkdtemp(prefix="demo-")
    shutil.copytree(d, t + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    res = {}
    try:
        r = sh("cd /repo && timeout 300 bash %s/x/demo.sh" % t); res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        r = sh("git -C /repo apply %s/patch.diff" % d); res["apply"] = r.returncode
        if r.returncode: print(r.stdout); return res
        r = sh("bash /opt/vp/build.sh"); res["build"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        sh("bash /opt/vp/test.sh %s/o.json" % t)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = json.load(open(t + "/o.json"))
        miss = sorted(stable - set(o["passed"])); res["tests_broken"] = len(miss)
        if miss: print("   broken:", miss[:5])
        r = sh("cd /repo && timeout 300 bash %s/x/demo.sh" % t); res["demo_bug"] = r.returncode
        print("   demo:", r.stdout.strip()[-200:])
    finally:
        sh("git -C /repo checkout -- .")
        shutil.rmtree(t)
    res["QUALIFIES"] = not (res["demo_clean"] or res["build"] or res["tests_broken"] or not res["demo_bug"])
    return res
only = "--check" in sys.argv; noc = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(H, "seeded")))
for i in ids:
    if not only: print(i, qualify(i), flush=True)
    if not noc: print(i, *check(i), flush=True)
if not only: sh("bash /opt/vp/build.sh")
