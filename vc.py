#!/usr/bin/env python3
"""Runs one property's check:  vc.py P01 [quick|thorough]   (or: vc.py P01 replay FILE)

Builds the harnesses of the property together with the current sources of
/repo in a scratch directory, explores, writes evidence/<id>.json and exits
0 (held on everything explored) or 1 (with a VIOLATION line).  Any other exit
is an error of the check itself.
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
NPROC = 8
sys.path.insert(0, HERE)
import checks  # the registry

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def compile_many(jobs):
    def one(j):
        cmd, what = j
        r = sh(cmd)
        return (r.returncode, what, cmd, r.stdout)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for rc, what, cmd, out in ex.map(one, jobs):
            if rc:
                raise BuildError("compiling %s failed:\n%s\n%s" % (what, " ".join(cmd), out[-4000:]))

def kernel_headers(work):
    """every kernel header the tree names resolves to kstub/kstub.h"""
    d = os.path.join(work, "kinc")
    if not os.path.isdir(d):
        for pat in ("linux_kernel/*.[ch]", "jitterentropy.h", "src/*.[ch]", "arch/*.[ch]"):
            for f in glob.glob(os.path.join(REPO, pat)):
                for m in re.finditer(r"^\s*#\s*include\s*<((?:linux|crypto|asm|uapi)/[\w/.-]+)>", open(f, errors="replace").read(), re.M):
                    p = os.path.join(d, m.group(1))
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w").write('#include "kstub.h"\n')
    return ["-I" + HERE + "/kstub", "-I" + d]

_libs = {}
def build_lib(work, variant):
    """objects of the library under check, one per source file"""
    if variant in _libs:
        return _libs[variant]
    v = checks.VARIANTS[variant]
    d = os.path.join(work, "lib-" + variant)
    os.makedirs(d)
    srcs = v.get("sources")
    kinc = kernel_headers(work) if v.get("kernel") else []
    if v.get("kernel") and srcs is None:
        srcs = [s for s in sorted(glob.glob(REPO + "/linux_kernel/*.c")) if os.path.basename(s) not in v.get("without", [])]
    elif srcs is None or srcs == "core":
        srcs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/arch/*.c"))
    else:
        srcs = [os.path.join(REPO, s) for s in srcs]
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        jobs.append(([v.get("cc", "gcc")] + checks.LIB_CFLAGS + v["cflags"] +
                     ["-I" + os.path.join(REPO, i) for i in v.get("inc", ["", "src", "arch"])] + kinc +
                     ["-c", s, "-o", o], s))
        objs.append(o)
    compile_many(jobs)
    _libs[variant] = objs
    return objs

def build_harness(work, h):
    v = checks.VARIANTS[h["variant"]]
    exe = os.path.join(work, h["name"])
    jobs, objs = [], []
    inc = ["-I" + os.path.join(REPO, i) for i in v.get("inc", ["", "src", "arch"])]
    for s in ["mc/mc.c"] + h["src"]:
        o = os.path.join(work, h["name"] + "-" + os.path.basename(s).replace(".c", ".o"))
        extra = h.get("cflags", []) + v.get("hcflags", [])
        if v.get("kernel"):
            extra = extra + kernel_headers(work)
        if s == "mc/mc.c":
            extra = []
        jobs.append((["gcc", "-O2", "-g", "-Wall", "-Wno-unused-function", "-D_GNU_SOURCE", "-I" + HERE + "/mc", "-I" + HERE + "/harness"] +
                     v.get("defs", []) + inc + extra + ["-c", os.path.join(HERE, s), "-o", o], s))
        objs.append(o)
    compile_many(jobs)
    lib = [] if h.get("nolib") else build_lib(work, h["variant"])
    skip = set(h.get("skip", []))
    lib = [o for o in lib if os.path.basename(o) not in skip]
    cmd = ["gcc", "-g"] + v.get("ldflags", []) + ["-o", exe] + objs + lib + \
          ["-Wl,--wrap=" + w for w in h.get("wrap", [])] + h.get("ldflags", []) + ["-lpthread"]
    r = sh(cmd)
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (h["name"], r.stdout[-4000:]))
    return exe

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    if pid == "setup":	# nothing is prebuilt: every check builds from the current tree
        return 0 if shutil.which("gcc") else 3
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if mode == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = checks.CHECKS[pid]
    work = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    t0 = time.time()
    try:
        return run(pid, prop, tier, mode, seed, work, t0)
    except BuildError as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)

def known_findings(pid):
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res

def run(pid, prop, tier, mode, seed, work, t0):
    harnesses = prop["harnesses"]
    known = known_findings(pid)
    if mode == "replay":
        f = sys.argv[3]
        head = open(f).read()
        m = re.search(r"^# harness (\S+) tier (\S+)", head, re.M)
        h = [x for x in harnesses if x["name"] == m.group(1)][0]
        exe = build_harness(work, h)
        r = subprocess.run([exe, "--replay", f] + hargs(h, m.group(2)), cwd=work)
        return r.returncode
    tot = dict(executions=0, choice_points=0, distinct_outcomes=0, distinct_states=0,
               inner_states=0, inner_transitions=0)
    per, samples = [], []
    exhaustive = True
    violations = 0
    rc = 0
    # build everything first
    exes = []
    for h in harnesses:
        if tier == "quick" and h.get("thorough_only"):
            continue
        exes.append((h, build_harness(work, h)))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for h, exe in exes:
        out = os.path.join(work, h["name"] + ".json")
        rep = os.path.join(HERE, "replays", "%s-%s.txt" % (pid, h["name"]))
        if os.path.exists(rep):
            os.unlink(rep)
        r = subprocess.run([exe, "--out", out, "--replay-out", rep, "--jobs", str(NPROC)] + hargs(h, tier),
                           cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        tail = r.stdout[-3000:]
        print("[%s] %s" % (h["name"], tail.strip()))
        s = json.load(open(out)) if os.path.exists(out) else None
        if r.returncode == 1 and s and s["violation"]:
            hit = [k for k in known if k[0].search(s["message"])]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
            else:
                violations += 1
                with open(rep) as f:
                    body = f.read()
                with open(rep, "w") as f:
                    f.write("# harness %s tier %s\n# replay: python3 /verif/vc.py %s replay %s\n%s" %
                            (h["name"], tier, pid, rep, body))
                print("violated: %s" % s["message"])
                print("VIOLATION property=%s replay=%s" % (pid, rep))
                rc = 1
        elif r.returncode != 0 or not s:
            print("ERROR: harness %s ended with status %s" % (h["name"], r.returncode))
            if rc == 0:
                rc = 3
            continue
        tot["executions"] += s["runs"]
        for k in ("choice_points", "distinct_outcomes", "distinct_states", "inner_states", "inner_transitions"):
            tot[k] += s[k]
        exhaustive = exhaustive and s["exhaustive"]
        samples += ["%s: %s" % (h["name"], x) for x in s["samples"][:3]]
        per.append({"harness": h["name"], "what": h.get("what", ""), "executions": s["runs"],
                    "choice_points": s["choice_points"], "distinct_outcomes": s["distinct_outcomes"],
                    "distinct_states": s["distinct_states"] + s["inner_states"],
                    "steps": s["inner_transitions"], "deviation_bound": s["deviation_bound"],
                    "max_deviations_seen": s["max_deviations_seen"],
                    "subtrees_done": "%d/%d" % (s["subtrees_done"], s["subtrees"]),
                    "exhaustive_within_bounds": s["exhaustive"], "wall_s": s["wall_s"]})
        if rc == 1:
            break
    states = tot["inner_states"] + tot["distinct_states"] + tot["distinct_outcomes"]
    trans = tot["inner_transitions"] + tot["choice_points"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans,
                       "traces_validated_against_impl": tot["executions"],
                       "exhaustive": exhaustive and rc == 0,
                       "samples": samples or ["none"],
                       "counting": "states = distinct model/implementation states plus distinct observed end states; transitions = model steps plus explored choice points; traces = complete executions of the real code, every one compared with the oracle",
                       "bounds": prop.get("bounds", ""), "harnesses": per},
          "assumptions": prop.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if rc == 0:
        print("property %s held: %d executions, %d states, %d transitions, exhaustive within bounds: %s, %.1f s" %
              (pid, tot["executions"], states, trans, exhaustive, time.time() - t0))
    return rc

def hargs(h, tier):
    q = dict(h.get("quick", {}))
    t = dict(q)
    t.update(h.get("thorough", {}))
    o = t if tier == "thorough" else q
    a = []
    if tier == "thorough":
        a.append("--thorough")
    for k in ("bound", "timeout", "budget"):
        if k in o:
            a += ["--" + k, str(o.pop(k))]
        elif k == "budget":
            a += ["--budget", "700" if tier == "quick" else "3000"]
    for k, v in o.items():
        a += ["--param", "%s=%s" % (k, v)]
    return a

if __name__ == "__main__":
    sys.exit(main())
