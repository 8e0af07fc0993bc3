#!/usr/bin/env python3
"""For each planted bug in seeded/: applies it to a scratch copy of /repo, builds, runs the stable tests and the demonstration
(which must pass without the bug and fail with it), then its property's check.  Usage: seedcheck.py [--nocheck] [--t SECONDS] [ID ...]"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
os.environ.setdefault("MUT_DIR", "/tmp/seedw")
sys.argv, a = [sys.argv[0], "--props", "C99", "no-such-mutant"], sys.argv[1:]
sys.path.insert(0, HERE)
src = open(HERE + "/mut.py").read(); src = src[:src.rindex("main()")]; exec(compile(src, "mut.py", "exec"))
nocheck = "--nocheck" in a; t = "30"
if "--t" in a: i = a.index("--t"); t = a[i + 1]; del a[i:i + 2]
ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
prepare(); env = dict(os.environ, SIM_REPO=R, SIM_BUILD=W + "/build", SIM_QUICK_S=t)
def demo(i): t0 = time.time(); r = subprocess.run(["timeout", "300", "bash", f"{V}/seeded/{i}/demo.sh"], cwd=R, capture_output=True, text=True); return r.returncode, time.time() - t0, (r.stdout + r.stderr)[-160:].replace("\n", " ")
RES = HERE + '/seed_results.json'; res = json.load(open(RES)) if os.path.exists(RES) else {}
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json")); reset(); d0 = demo(i)
    r = sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff")
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr, flush=True); continue
    tr = tests(); d1 = demo(i); c = ""
    if not nocheck:
        q = sh(f"python3 {V}/check.py check {meta['property']}", env=env); ln = [x for x in q.stdout.split("\n") if x.startswith(("violation:", "ERROR"))]
        c = f"{meta['property']}={'CAUGHT' if q.returncode == 1 else 'quiet' if q.returncode == 0 else 'ERR'} {ln[0][:150] if ln else ''}"
    if c: res[i] = {'caught': 'yes' if 'CAUGHT' in c else 'no'}; json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)
    good = d0[0] == 0 and d1[0] not in (0, 2) and tr == "tests-pass"
    print(f"{'OK ' if good else 'BAD'} {i}: {tr}, demo {d0[0]} ({d0[1]:.0f}s) -> {d1[0]} ({d1[1]:.0f}s) [{d1[2]}] {c}", flush=True)
    if not good: print("     unpatched:", d0[2])
reset()
