#!/usr/bin/env python3
"""Sensitivity campaign: applies each mutant of tools/mutants.py to a scratch copy of /repo, builds it, runs the stable tests,
then runs the named checks against the copy.  Usage: mut.py [--all-props] [--notest] [--t SECONDS] [NAME-PREFIX ...]"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mutants
W = os.environ.get("MUT_DIR", "/tmp/mut"); R = W + "/repo"

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prepare():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R): sh(f"cp -a /repo {R}")
    for f in ("build.sh", "test.sh", "run_gtest.py", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/", W + "/")
        open(f"{W}/{f}", "w").write(s)
    reset()
def reset():
    sh(f"git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD")
def apply(m):
    reset()
    for f, old, new in m["edits"]:
        p = f"{R}/{f}"; s = open(p).read()
        if s.count(old) != m.get("count", 1) and not (m.get("first") and s.count(old) >= 1): return f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
        s = s.replace(old, new, 1) if m.get("first") else s.replace(old, new)
        open(p, "w").write(s)
    return None
def tests():
    r = sh(f"bash {W}/build.sh")
    if r.returncode: return "BUILD-FAIL " + r.stderr[-400:]
    if os.path.exists(f"{W}/t.json"): os.remove(f"{W}/t.json")
    if sh(f"timeout -k 2 90 bash {W}/test.sh {W}/t.json").returncode == 124 or not os.path.exists(f"{W}/t.json"):
        sh("pkill thts-test"); return "TESTS-HANG"
    b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(f"{W}/t.json"))
    base = b.get("stable") or b.get("passed") or b
    miss = [x for x in base if x not in set(t["passed"])]
    return f"TESTS-FAIL {len(miss)} {miss[:2]}" if miss else "tests-pass"
def main():
    a = sys.argv[1:]; allp = "--all-props" in a; notest = "--notest" in a; t = "30"
    if "--t" in a: i = a.index("--t"); t = a[i + 1]; del a[i:i + 2]
    only = None
    if "--props" in a: i = a.index("--props"); only = a[i + 1].split(","); del a[i:i + 2]
    names = [x for x in a if not x.startswith("--")]
    prepare()
    env = dict(os.environ, SIM_REPO=R, SIM_BUILD=W + "/build", SIM_QUICK_S=t)
    for m in mutants.M:
        if names and not any(m["name"].startswith(n) for n in names): continue
        e = apply(m)
        if e: print(f"{m['name']}: BAD {e}", flush=True); continue
        tr = "untested" if notest else tests()
        if tr.startswith("BUILD"): print(f"{m['name']}: {tr}", flush=True); continue
        res = []
        props = only or (["C%02d" % i for i in range(1, 21)] if allp else m["props"])
        for p in props:
            t0 = time.time(); r = sh(f"python3 {V}/check.py check {p}", env=env)
            ln = [x for x in r.stdout.split("\n") if x.startswith(("violation:", "ERROR"))]
            res.append(f"{p}={'CAUGHT' if r.returncode == 1 else 'quiet' if r.returncode == 0 else 'ERR'+str(r.returncode)}({time.time()-t0:.0f}s{' '+ln[0][11:170] if ln else ''})")
        print(f"{m['name']}: [{'preserving' if m.get('keep') else 'breaking'}] {tr} | " + " | ".join(res), flush=True)
    reset()
main()
