#!/usr/bin/env python3
"""Runs the model-checking harnesses of one property against /repo's working tree.

  check.py P04 [--tier quick|thorough] [--only SCENARIO] [--jobs N] [--keep]

Compiles harness/<pid lower>*.cpp (instrumented, against /repo/include), links them with the checker
runtime mc/mc.cpp, enumerates every scenario's executions, writes evidence/<PID>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CXX = "g++"
HFLAGS = ("-std=c++20 -fcoroutines -fsanitize=thread -O1 -g1 -w -D_GLIBCXX_ASSERTIONS -DMC_HARNESS=1 "
          "-fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove").split()
RFLAGS = "-std=c++20 -O2 -g -w -fno-builtin-memcpy -fno-builtin-memset -fno-tree-loop-distribute-patterns".split()

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_runtime():
    os.makedirs(BUILD, exist_ok=True)
    o = os.path.join(BUILD, "mc.o")
    srcs = [os.path.join(V, "mc", "mc.cpp"), os.path.join(V, "mc", "mc.h")]
    if not os.path.exists(o) or any(os.path.getmtime(s) > os.path.getmtime(o) for s in srcs):
        tmp = o + ".%d" % os.getpid()
        r = run([CXX, *RFLAGS, "-c", srcs[0], "-o", tmp])
        if r.returncode: print(r.stdout); sys.exit(2)
        os.replace(tmp, o)
    return o

def parts_of(src):
    """`// PARTS: n` compiles the file n times, with -DMC_PART=0..n-1 -DMC_PARTS=n."""
    for l in open(src):
        m = re.match(r"//\s*PARTS:\s*(\d+)", l)
        if m: return int(m.group(1))
    return 1

def configure(src, dst, on, gen):
    """What cmake's configure_file does for #cmakedefine01 lines: REPO/src -> gen/dst, `on` are the true variables."""
    t = open(os.path.join(REPO, src)).read()
    t = re.sub(r"#\s*cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m.group(1), m.group(1) in on), t)
    d = os.path.join(gen, dst)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    open(d, "w").write(t)
    return gen

def build_tu(src, part, parts, tier, out, mco):
    obj = out + ".o"
    extra = ["-DMC_PART=%d" % part, "-DMC_PARTS=%d" % parts, "-DMC_THOROUGH=%d" % (tier == "thorough")]
    for l in open(src):
        m = re.match(r"//\s*FLAGS:\s*(.*)", l)
        if m: extra += m.group(1).replace("@V@", V).split()
        m = re.match(r"//\s*CONFIGURE:\s*(\S+)\s+(\S+)\s*(.*)", l)
        if m: extra.append("-I" + configure(m.group(1), m.group(2), m.group(3).split(), out + ".gen"))
    libs = [x for x in extra if x.startswith("-l")]
    extra = [x for x in extra if not x.startswith("-l")]
    r = run([CXX, *HFLAGS, *extra, "-I" + V + "/mc/shim", "-I" + V + "/mc", "-I" + V + "/harness", "-I" + REPO + "/include",
             "-c", src, "-o", obj])
    if r.returncode: return r.stdout
    r = run([CXX, obj, mco, "-o", out, *libs, "-ldl", "-pthread", "-Wl,-z,now"])
    if r.returncode: return r.stdout
    return None

def load_known():
    """known_findings.txt: lines `known: property=<id> scenario=<name> match=<regex>` (# comments) and
    `fixed: property=<id> <commit> <what>`.  Fixed entries suppress nothing."""
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+scenario=(\S+)\s+match=(.*?)\s+what=(.*)$", l.strip())
            if m: known.append(dict(property=m.group(1), scenario=m.group(2), match=m.group(3), what=m.group(4)))
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--budget", type=float, default=0, help="seconds for exploration (default 420 quick / 3000 thorough)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.pid, a.tier
    budget = a.budget or (420 if tier == "quick" else 3000)
    work = os.path.join(BUILD, "%s.%s.%d" % (pid, tier, os.getpid()))
    os.makedirs(work, exist_ok=True)
    rc = 2
    try:
        rc = check(a, pid, tier, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(a, pid, tier, budget, work, t0):
    mco = build_runtime()
    srcs = sorted(glob.glob(os.path.join(V, "harness", pid.lower() + "*.cpp")))
    if not srcs:
        print("no harness for", pid); return 2
    bins = []
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = {}
        for s in srcs:
            n = parts_of(s)
            for i in range(n):
                b = os.path.join(work, os.path.basename(s)[:-4] + (".%d" % i if n > 1 else ""))
                futs[ex.submit(build_tu, s, i, n, tier, b, mco)] = (s, b)
        for f in cf.as_completed(futs):
            err = f.result()
            if err:
                print("cannot build harness %s\n%s" % (futs[f][0], err[-6000:])); return 2
            bins.append(futs[f])
    tb = time.time()
    scen = []
    for _, s in sorted(bins, key=lambda b: b[1]):
        r = run([s, "--list"])
        for l in r.stdout.split("\n"):
            w = l.split()
            if len(w) == 2 and w[0] == pid and (not a.only or re.fullmatch(a.only, w[1])): scen.append((s, w[1]))
    if not scen:
        print("no scenarios for", pid); return 2
    deadline = time.time() + budget
    results = {}
    def one(sc):
        src, name = sc
        out = os.path.join(work, name + ".json")
        left = max(5.0, deadline - time.time())
        # a scenario may use at most half of the budget
        cmd = [src, "--run", name, "--tier", tier, "--out", out, "--max-time", "%.1f" % min(left, budget / 2)]
        try:
            r = run(cmd, timeout=left + 120)
        except subprocess.TimeoutExpired:
            return sc, 124, None, "timeout"
        d = None
        if os.path.exists(out):
            try: d = json.load(open(out))
            except Exception as e: d = None
        return sc, r.returncode, d, r.stdout
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for sc, rc, d, txt in ex.map(one, scen):
            results[sc] = (rc, d, txt)
    known = [k for k in load_known() if k["property"] == pid]
    viol, errors = [], []
    tot = dict(executions=0, transitions=0, states=0, pruned=0, discarded=0, distinct_outcomes=0)
    per, samples, capped = [], [], []
    for sc in scen:
        rc, d, txt = results[sc]
        if d is None or rc not in (0, 1):
            errors.append((sc[1], rc, txt[-2000:])); continue
        for k in tot: tot[k] += d.get(k, 0)
        e = {k: d.get(k) for k in ("scenario", "executions", "transitions", "states", "preemption_bound", "completed_bound",
             "capped", "stale", "spurious", "early_timer", "dpor", "max_steps", "pruned", "discarded", "distinct_outcomes", "wall_s", "violation")}
        e["sample_outcomes"] = [o["o"][:200] for o in (d.get("outcomes") or [])[:4]]
        per.append(e)
        if d.get("capped"): capped.append(sc[1])
        if rc == 1 or d.get("violation"):
            msg = d.get("message", "")
            k = [x for x in known if re.fullmatch(x["scenario"], sc[1]) and re.search(x["match"], msg)]
            rp = os.path.join(V, "evidence", "replay", "%s_%s.txt" % (pid, sc[1]))
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            if os.path.exists(os.path.join(work, sc[1] + ".json.replay")):
                shutil.copy(os.path.join(work, sc[1] + ".json.replay"), rp)
            viol.append((sc[1], msg, rp, k[0] if k else None))
    for e in per[:6]:
        samples.append(dict(scenario=e["scenario"], executions=e["executions"], outcomes=e["sample_outcomes"]))
    new = [v for v in viol if not v[3]]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["executions"],
            samples=samples, evaluations=tot["executions"], exhaustive=not capped and not errors and not viol,
            explanation="every execution is a run of the real code under the controlled scheduler; states = distinct happens-before "
                        "prefixes reached; transitions = visible operations executed; exhaustive within the per-scenario bounds below",
            scenarios=len(per), distinct_outcomes=tot["distinct_outcomes"], sleep_set_pruned=tot["pruned"], discarded=tot["discarded"],
            capped_scenarios=capped, per_scenario=per, build_s=round(tb - t0, 1)),
        assumptions=["sequentially consistent interleavings plus, where 'stale' > 0, bounded stale atomic loads; data races are reported under the C++ memory model",
                     "bounds per scenario: preemptions (-1 = unbounded), threads and operations of the harness"],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        tmp = os.path.join(V, "evidence", ".%s.%d" % (pid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))
    for e in sorted(per, key=lambda e: -e["wall_s"])[:400]:
        print("  %-34s ex=%-8d tr=%-9d st=%-8d bound=%s outcomes=%s %.1fs%s" % (e["scenario"], e["executions"], e["transitions"], e["states"],
              e["completed_bound"] if e["preemption_bound"] != -1 else "full", e["distinct_outcomes"], e["wall_s"], " CAPPED" if e["capped"] else ""))
    print("%s %s: %d scenarios, %d executions, %d transitions, %d states, build %.1fs, total %.1fs" % (pid, tier, len(per), tot["executions"],
          tot["transitions"], tot["states"], tb - t0, time.time() - t0))
    for s, msg, rp, k in viol:
        if k: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("  %s: %s" % (s, msg[:600]))
    if new:
        for s, msg, rp, k in new: print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for s, rc, t in errors: print("ERROR scenario %s rc=%s %s" % (s, rc, t))
        return 2
    return 0

if __name__ == "__main__":
    main()
