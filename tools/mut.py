#!/usr/bin/env python3
"""mut.py PROPS FILE [python edits on s from stdin]: run quick checks against an edited scratch copy (VC_REPO)"""
import subprocess, sys, tempfile, shutil, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props, f = sys.argv[1].split(","), sys.argv[2]
t = tempfile.mkdtemp(prefix="mut-")
try:
    subprocess.run("cd /repo && git archive HEAD | tar x -C " + t, shell=True, check=True)
    p = os.path.join(t, f); s = open(p).read()
    def rep(a, b, n=1):
        global s
        assert s.count(a) == n, (a, s.count(a))
        s = s.replace(a, b)
    exec(sys.stdin.read())
    open(p, "w").write(s)
    for pr in props:
        r = subprocess.run(["python3", H + "/vc.py", pr, "quick"], env=dict(os.environ, VC_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        l = [x for x in r.stdout.splitlines() if x.startswith(("violated", "ERROR", "property"))]
        print(pr, r.returncode, (l or [r.stdout[-500:]])[0][:300], flush=True)
finally:
    shutil.rmtree(t)
