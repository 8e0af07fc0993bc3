#!/usr/bin/env python3
"""Generated mutants: small syntactic edits of /repo's sources in a scratch copy.  A mutant that builds and passes the stable
tests is run through all simulated properties; survivors are printed for inspection.
Usage: automut.py [--t SECONDS] [--seed N] [--n COUNT] [--files REGEX] [--log FILE]"""
import concurrent.futures, json, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
a = sys.argv[1:]
def opt(k, d):
    return a[a.index(k) + 1] if k in a else d
T = opt("--t", "8"); SEED = int(opt("--seed", "1")); N = int(opt("--n", "200")); FR = opt("--files", r"."); LOG = opt("--log", "/tmp/automut.jsonl"); WORK = opt("--dir", "/tmp/am"); J = int(opt("--j", "8"))
os.environ["MUT_DIR"] = WORK; os.environ["SIM_REPO"] = WORK + "/repo"; os.environ["SIM_BUILD"] = WORK + "/build"
sys.argv = [sys.argv[0]]; sys.path.insert(0, HERE); sys.path.insert(0, V)
src = open(HERE + "/mut.py").read(); exec(compile(src[:src.rindex("main()")], "mut.py", "exec"))
import check
PROPS = ["C%02d" % i for i in range(1, 23)]
def code_lines(text):
    out, block = [], False
    for l in text.split("\n"):
        s = l
        if block:
            if "*/" in s: s = s.split("*/", 1)[1]; block = False
            else: out.append(False); continue
        if "/*" in s: block = "*/" not in s; out.append(False); continue
        s = s.strip(); out.append(bool(s) and not s.startswith(("//", "#", "using", "namespace", "*")))
    return out
OPS = [(r"(?<![<>=!\-])<=(?!=)", ["<"]), (r"(?<![<>\-=])>=(?!=)", [">"]), (r" < ", [" <= "]), (r" > ", [" >= "]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+", ["--"]), (r"--", ["++"]),
       (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "2.0"]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"notify_all", ["notify_one"]), (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]), (r"\breturn (.+);", None), (r"num_visits", ["num_backups"])]
def candidates():
    out = []
    for top in ("src", "include"):
        for d, _, fs in os.walk(f"{R}/{top}"):
            for f in sorted(fs):
                p = os.path.join(d, f); rel = os.path.relpath(p, R)
                if not f.endswith((".cpp", ".cc", ".h")) or "template" in d or not re.search(FR, rel): continue
                if f.endswith(".h") and f not in ("thts_manager.h",): continue
                text = open(p).read(); ls = text.split("\n"); ok = code_lines(text)
                for i, l in enumerate(ls):
                    if not ok[i]: continue
                    for pat, reps in OPS:
                        for m in re.finditer(pat, l):
                            if reps is None: continue
                            for x in reps: out.append((rel, i, l[:m.start()] + x + l[m.end():]))
                    s = l.strip()
                    if s.endswith(";") and not s.startswith(("return", "auto ", "else", "}", "throw", "case", "break")) and (re.match(r"[\w\->\.\*\(\)\[\]]+\(.*\);$", s) or re.match(r"[\w\->\.\[\]]+ *(\+|-)?= .*;$", s) or re.match(r"(std::)?(lock_guard|unique_lock).*;$", s)):
                        out.append((rel, i, ""))
                    if s.startswith("if ") and s.endswith("{"): 
                        c = re.match(r"(\s*if *)\((.*)\)( *\{)$", l)
                        if c: out.append((rel, i, f"{c[1]}(!({c[2]})){c[3]}")); out.append((rel, i, f"{c[1]}((({c[2]}) && false)){c[3]}"))
                    # swap with the next statement
                    if s.endswith(";") and i + 1 < len(ls) and ok[i + 1] and ls[i + 1].strip().endswith(";") and not ls[i+1].strip().startswith(("return", "throw", "break")) and not s.startswith(("return", "throw", "break")):
                        out.append((rel, i, ("swap",)))
    return out
def run_props(binp):
    caught = {}
    def one(i):
        p = PROPS[i]
        r = subprocess.run(["timeout", str(int(float(T)) + 400), binp, "run", "--prop", p, "--seed", str(SEED * 77 + i), "--from", "0", "--to", "100000000", "--time", T, "--recheck", "0", "--maxviol", "1"], capture_output=True, text=True)
        return p, r.stdout
    with concurrent.futures.ThreadPoolExecutor(J) as ex:
        for p, o in ex.map(one, range(len(PROPS))):
            m = re.search(r'"viol":(\d+)', o); c = re.search(r'"cls":"([^"]*)"', o)
            if m and int(m[1]): caught[p] = c[1] if c else "?"
            elif not m: caught[p] = "no-summary"
    return caught
prepare(); c = candidates(); rnd = random.Random(SEED); rnd.shuffle(c); print(len(c), "candidates", flush=True)
done = set()
if os.path.exists(LOG):
    for l in open(LOG): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
lf = open(LOG, "a"); n = 0
for rel, i, new in c:
    if n >= N: break
    p = f"{R}/{rel}"; sh(f"git -C {R} checkout -q -- ."); ls = open(p).read().split("\n"); old = ls[i]
    if new == ("swap",): ls[i], ls[i + 1] = ls[i + 1], ls[i]; new = "<swap with next>"
    else: ls[i] = new
    if (rel, i + 1, new) in done: continue
    n += 1
    open(p, "w").write("\n".join(ls)); t0 = time.time(); tr = tests(); rec = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip() if new != "<swap with next>" else new, tests=tr[:60])
    rec["new"] = new
    if tr == "tests-pass":
        try:
            b, _ = check.build(); rec["caught"] = run_props(b); os.unlink(b)
        except SystemExit: rec["caught"] = {"build": "fail"}
        print(f"{'CAUGHT  ' if rec['caught'] else 'SURVIVED'} {rel}:{i+1} {old.strip()[:110]!r} -> {new.strip()[:110]!r} {rec['caught']} {time.time()-t0:.0f}s", flush=True)
    lf.write(json.dumps(rec) + "\n"); lf.flush()
sh(f"git -C {R} checkout -q -- .")
