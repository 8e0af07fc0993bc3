#!/usr/bin/env python3
"""Deterministic-simulation checks of thts++.

  check.py check C01 [--tier quick|thorough]   decide one property (exit 0 held, 1 violation, 2 error)
  check.py build                               build the simulator from /repo's working tree
  check.py replay FILE                         re-execute a recorded violation exactly
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
FAULTS = ["preemption inside an operation", "spurious condition-variable wakeup", "wall clock jump forward", "wall clock jump backward",
          "stalled thread", "thread start failure (EAGAIN)", "extreme random draw", "dirty uninitialised memory", "random-device entropy change",
          "perturbed heap layout", "delayed trial", "allocation failure (bad_alloc)"]
QUICK_S = float(os.environ.get("SIM_QUICK_S", "45"))
THOROUGH_S = float(os.environ.get("SIM_THOROUGH_S", "600"))
IFLAGS = ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-w"]
UFLAGS = ["-std=c++20", "-O2", "-g1", "-w"]
REDEF = [x for s in ("memcpy", "memmove", "memset", "memcmp") for x in ("--redefine-sym", f"{s}=__sim_{s}")]


def die(msg):
    print(f"ERROR: {msg}")
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def build():
    """Compile /repo's current sources and the harness; objects are cached by content only."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    srcs, heads = [], []
    for top in ("src", "include", "external"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".cpp") and top == "src": srcs.append(p)
                if not f.endswith((".o", ".d", ".cpp")): heads.append(p)
    srcs.sort(); heads.sort()
    hh = sha(*[x for p in heads for x in (os.path.relpath(p, REPO), rd(p))])
    hv = sha(*[x for f in ("h_common.h", "h_scen.h", "hist.h", "rt.h") for x in (f, rd(os.path.join(SIM, f)))])
    cc = subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    inc = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{REPO}/external", f"-I{REPO}", f"-I{SIM}"]
    jobs = []
    for p in srcs:
        jobs.append((p, IFLAGS + inc, True, sha(cc, " ".join(IFLAGS), hh, os.path.relpath(p, REPO), rd(p), REPO)))
    for f in ("h_common.cpp", "h_scen.cpp"):
        jobs.append((os.path.join(SIM, f), IFLAGS + inc, True, sha(cc, " ".join(IFLAGS), hh, hv, f, rd(os.path.join(SIM, f)), REPO)))
    for f in ("rt.cpp", "hist.cpp", "main.cpp"):
        jobs.append((os.path.join(SIM, f), UFLAGS + [f"-I{SIM}"], False, sha(cc, " ".join(UFLAGS), hv, f, rd(os.path.join(SIM, f)))))
    objd = os.path.join(BUILD, "obj"); os.makedirs(objd, exist_ok=True)

    def comp(j):
        src, fl, redef, key = j
        out = os.path.join(objd, key + ".o")
        if os.path.exists(out):
            os.utime(out); return out, None
        tmp = out + f".{os.getpid()}.tmp.o"
        r = subprocess.run(["g++"] + fl + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode: return None, f"{src}: {r.stderr[-3000:]}"
        if redef:
            r = subprocess.run(["objcopy"] + REDEF + [tmp], capture_output=True, text=True)
            if r.returncode: return None, r.stderr
        os.rename(tmp, out)
        return out, None
    jobs.sort(key=lambda j: not j[0].endswith("h_scen.cpp"))
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
        res = list(ex.map(comp, jobs))
    bad = [e for o, e in res if e]
    if bad: die("the code does not build in the simulator:\n" + bad[0])
    objs = sorted(o for o, _ in res)
    exe = os.path.join(BUILD, "sim-" + sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".tmp"
        r = subprocess.run(["g++", "-no-pie"] + objs + ["-o", tmp, "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode: die("the simulator does not link:\n" + r.stderr[-3000:])
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    # bound the cache
    for pat, keep in (("sim-*", 3), ("obj/*.o", 400)):
        for old in sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime)[:-keep]:
            if old != exe and old not in objs: os.unlink(old)
    # a private copy: other builds may evict the cached file
    fd, priv = tempfile.mkstemp(prefix="simexe-", dir=BUILD); os.close(fd)
    shutil.copy2(exe, priv); os.chmod(priv, 0o755)
    lock.close()
    return priv, time.time() - t0


def known(prop):
    """Lines 'finding: property=<id> class=<class> match=<regex> what=<text>' of the committed file."""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+) what=(.*)", ln.strip())
            if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def check(prop, tier):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    exe, build_s = build()
    try:
        return run_check(prop, tier, seed, exe, build_s, t_start)
    finally:
        os.unlink(exe)


def run_check(prop, tier, seed, exe, build_s, t_start):
    search_s = QUICK_S if tier == "quick" else THOROUGH_S
    kn = known(prop)
    cpus = sorted(os.sched_getaffinity(0))
    W = len(cpus)
    procs = []
    with tempfile.TemporaryDirectory(prefix="simrun-", dir=BUILD) as td:
        for i, c in enumerate(cpus):
            out = open(os.path.join(td, f"o{i}"), "w")
            procs.append(subprocess.Popen([exe, "run", "--cpu", str(c), "--prop", prop, "--seed", str(seed), "--from", str(i), "--to", "1000000000", "--stride", str(W),
                                           "--time", str(search_s), "--recheck", "40", "--maxviol", "1" if not kn else "1000000", "--hashes", os.path.join(td, f"h{i}")], stdout=out, stderr=subprocess.STDOUT))
        # stop early once some worker has stopped on a violation
        deadline = time.time() + search_s + 240
        while any(p.poll() is None for p in procs) and time.time() < deadline:
            time.sleep(0.1)
            if not kn and any(p.poll() is not None for p in procs):
                texts = [rd(os.path.join(td, f"o{i}")) for i in range(W)]
                if any(b'"violation":1' in t for t in texts):
                    time.sleep(1.0); break
        for p in procs:
            if p.poll() is None: p.kill()
        for p in procs: p.wait()
        viol, internal, summ = [], [], []
        for i in range(W):
            for ln in open(os.path.join(td, f"o{i}"), errors="replace"):
                try: j = json.loads(ln)
                except ValueError: continue
                if "violation" in j: viol.append(j)
                elif "internal" in j: internal.append(j)
                elif "summary" in j: summ.append(j)
        distinct = set()
        for i in range(W):
            p = os.path.join(td, f"h{i}")
            if os.path.exists(p):
                b = rd(p); distinct.update(b[k:k + 8] for k in range(0, len(b), 8))
    # known findings
    fresh, seen = [], {}
    for v in viol:
        for cls, rx, what in kn:
            if v["cls"] == cls and rx.search(v["msg"]): seen[what] = seen.get(what, 0) + 1; break
        else: fresh.append(v)
    for what in seen: print(f"KNOWN-FINDING: property={prop} {what}")
    status, replay, gated = 0, None, None
    if fresh:
        # gate: same seed twice gives the same execution, the minimised trace replays exactly in a fresh process
        fresh.sort(key=lambda v: (v["ndec"], v["idx"]))
        os.makedirs(REPLAYS, exist_ok=True)
        notes = []
        for v in fresh[:6]:
            f = os.path.join(REPLAYS, f"{prop}-{v['seed']}.replay")
            try:
                m = subprocess.run([exe, "min", "--cpu", str(cpus[0]), "--prop", prop, "--runseed", str(v["seed"]), "--out", f, "--budget", "20"], capture_output=True, text=True, timeout=400)
                if m.returncode: notes.append(m.stdout.strip() or f"min exit {m.returncode}"); continue
                r = subprocess.run([exe, "replay", f, "--cpu", str(cpus[-1])], capture_output=True, text=True, timeout=300)
                if r.returncode != 1: notes.append("replay: " + r.stdout.strip()[-300:]); continue
            except subprocess.TimeoutExpired:
                notes.append("timeout while minimising"); continue
            info = json.loads(m.stdout.strip().split("\n")[-1])
            msg = symbolise(exe, info["msg"])
            print(f"violation: {info['class']}: {msg}")
            print(f"scenario: {v['desc']}")
            print(f"seed {v['seed']} (index {v['idx']} of VERIF_SEED={seed}); trace minimised from {info['from']} to {info['to']} decisions in {info['tries']} re-executions; replay: python3 check.py replay {f}")
            print(f"VIOLATION property={prop} replay={f}")
            status, replay, gated = 1, f, {"class": info["class"], "message": msg, "seed": v["seed"], "scenario": v["desc"], "decisions_before": info["from"], "decisions_after": info["to"]}
            break
        else:
            print("ERROR: violations could not be reproduced exactly: " + " | ".join(notes)); status = 2
    if internal and status == 0:
        print("ERROR: " + internal[0]["msg"]); status = 2
    if status == 0 and len(summ) != W:
        print(f"ERROR: {W - len(summ)} of {W} simulation workers did not finish"); status = 2
    write_evidence(prop, tier, seed, summ, distinct, build_s, t_start, status, fresh, seen, gated, W)
    runs = sum(s["runs"] for s in summ)
    print(f"{prop} {tier}: {runs} simulated runs, {len(distinct)} distinct interleavings, {len(fresh)} violations, build {build_s:.1f} s, total {time.time() - t_start:.1f} s")
    return status


def symbolise(exe, msg):
    pcs = sorted(set(re.findall(r"0x[0-9a-f]{5,}", msg)))
    if not pcs or not shutil.which("addr2line"): return msg
    for pc in pcs[:6]:
        r = subprocess.run(["addr2line", "-Cfe", exe, pc], capture_output=True, text=True).stdout.split("\n")
        if len(r) >= 2: msg = msg.replace(pc, f"{pc} [{r[0][:80]} {os.path.relpath(r[1], REPO) if r[1].startswith(REPO) else os.path.basename(r[1])}]")
    return msg


def write_evidence(prop, tier, seed, summ, distinct, build_s, t_start, status, fresh, seen, gated, W):
    S = lambda k: sum(s[k] for s in summ)
    V = lambda k: [sum(s[k][i] for s in summ) for i in range(len(summ[0][k]))] if summ else []
    runs = S("runs"); wall = max([s["wall"] for s in summ], default=0.0)
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))} if os.path.exists(os.path.join(HERE, "properties.jsonl")) else {}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": S("nontrivial"),
        "rule": "one evaluation = one complete simulated execution of the scenario family of this property (environment, algorithm, configuration, API calls, schedule and faults all derived from one 64-bit run seed); "
                "it counts as distinct and non-trivial when the hash of its sequence of (thread, switch point) pairs was not produced by an earlier run of the same worker and it has more than two context switches",
        "samples": [x for s in summ for x in s["samples"]][:8],
        "distinct_interleavings_all_workers": len(distinct),
        "runs_per_hour": round(runs / wall * 3600) if wall else 0,
        "simulated_seconds": round(S("vtime"), 6),
        "scheduling_steps": S("gsteps"), "instrumented_memory_accesses": S("memsteps"), "context_switches": S("switches"),
        "recorded_events": S("events"), "allocations_tracked": S("allocs"), "scheduler_decisions": S("decisions"),
        "max_threads_in_a_run": max([s["maxthreads"] for s in summ], default=0),
        "max_scheduling_steps_in_a_run": max([s["maxg"] for s in summ], default=0), "max_memory_steps_in_a_run": max([s["maxm"] for s in summ], default=0),
        "step_bounds": "a run that needs more than 400000 scheduling or 60000000 memory steps is reported as no-progress",
        "faults_injected": dict(zip(FAULTS, V("faults"))), "runs_with_fault": dict(zip(FAULTS, V("faultruns"))),
        "probes": V("aux"),
        "probes_meaning": PROBES.get(prop, "0: trials (or draws) executed"),
        "determinism_rechecks": S("rechecks"),
        "seed_range": f"run seeds are a hash of (VERIF_SEED={seed}, property, index); indices 0..{runs} over {W} workers",
        "real_code": "all of /repo/src and /repo/include, libstdc++ containers, std::mutex/condition_variable/thread/chrono code paths, compiled from the working tree",
        "stubs": "thread scheduling, mutexes, condition variables, reader-writer locks, semaphores, thread creation, clocks, sleeps, random device and heap are the simulator's; the environment being planned for is a generated finite MDP implementing the public environment interface",
        "build_s": round(build_s, 2), "workers": W,
    }
    if gated: cov["violation"] = gated
    if seen: cov["known_findings_seen"] = seen
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t_start, 2), "violations": 1 if status == 1 else 0,
          "assumptions": ["seeded sampling: absence of a violation is evidence, not proof", "sequentially consistent memory: weak-memory reorderings are not simulated, but the data-race check (C04) reports every unsynchronised conflicting access it executes",
                          "environment, heuristic and prior callbacks are deterministic functions and do not throw"]}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))


PROBES = {
    "C05": "0: trials; 1: node operations recorded", "C06": "0: trials; 1: decision nodes compared", "C07": "0: trials; 2: decision nodes shared by several edges",
    "C08": "0: trials; 1: decision nodes compared; 2: single-worker runs with every selection checked", "C09": "0: trials; 1: decision nodes compared", "C10": "0: trials; 1: decision nodes asked",
    "C11": "0: draws; 1: concurrent histories with the real-time order checked", "C13": "0: trials; 1: log rows checked; 2: last rows compared with the quiescent root", "C03": "0: trials; 2: requests that overlap a running search", "C15": "0: trials; 3: refused switches",
    "C17": "0: samples drawn", "C18": "1: pool constructions that failed; 2: evaluation calls with injected failures; 3: search requests that failed",
    "C19": "0: trials; 1: nodes whose distribution was measured exactly; 2: statistical sweeps; 3: RENTS values checked", "C20": "0: trials; 1: fully explored problems; 2: evaluations compared with the optimum",
    "C21": "0: trials; 1: outcome edges compared; 2: rollouts", "C22": "0: trials; 1: stalled trials; 2: rollouts",
}


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        p, s = build(); os.unlink(p); print(f"built in {s:.1f} s"); return 0
    if a[:1] == ["check"] and len(a) >= 2:
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[:1] == ["replay"] and len(a) == 2:
        p, _ = build()
        try: return subprocess.run([p, "replay", a[1]]).returncode
        finally: os.unlink(p)
    print(__doc__); return 2


if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); print(f"ERROR: {e}"); sys.exit(2)
