#!/usr/bin/env python3
"""Self tests of the checker (not part of any check).
  engine.cpp  programs with known answers: good_* must pass, bad_* must be reported
  rnd.cpp     random programs: DPOR, sleep sets and plain enumeration must find the same outcomes
  uring_conformance.cpp  every order of completions seen on the real io_uring is one the kernel model of P31 produces
usage: run.py [--seeds A B] [--len N]"""
import argparse, json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
ap = argparse.ArgumentParser()
ap.add_argument("--seeds", nargs=2, type=int, default=[0, 8])
ap.add_argument("--len", type=int, default=3)
ap.add_argument("--only", default="engine,rnd,uring")
a = ap.parse_args()
bad = 0
T = tempfile.mkdtemp(prefix="selftest")
mco = check.build_runtime()
def build(f, out, *defs):
    check_src = os.path.join(V, "selftest", f)
    cmd = [check.CXX, "-std=c++20", "-fcoroutines", "-fsanitize=thread", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-builtin-memcpy", "-fno-builtin-memset",
           "-fno-builtin-memmove", *defs, "-I" + V + "/mc/shim", "-I" + V + "/mc", "-I" + V + "/harness", "-I" + check.REPO + "/include", "-c", check_src, "-o", T + "/" + out + ".o"]
    subprocess.run(cmd, check=True)
    subprocess.run([check.CXX, T + "/" + out + ".o", mco, "-o", T + "/" + out, "-ldl", "-pthread", "-Wl,-z,now"], check=True)
    return T + "/" + out
def run1(exe, scen, out, env={}, t=100):
    p = subprocess.run([exe, "--run", scen, "--tier", "quick", "--out", out, "--max-time", str(t)], env={**os.environ, **env}, capture_output=True, text=True)
    return p.returncode, (json.load(open(out)) if os.path.exists(out) else None)
try:
    if "engine" in a.only:
        exe = build("engine.cpp", "engine")
        names = [l.split()[1] for l in subprocess.run([exe, "--list"], capture_output=True, text=True).stdout.splitlines() if l]
        with ThreadPoolExecutor(8) as p:
            for n, (rc, d) in zip(names, p.map(lambda n: run1(exe, n, T + "/e_" + n + ".json"), names)):
                if d is None or (rc == 1) != n.startswith("bad_"): print("engine", n, "rc", rc, "UNEXPECTED"); bad += 1
        print("engine:", len(names), "programs")
    if "rnd" in a.only:
        exe = build("rnd.cpp", "rnd")
        def one(seed):
            r = []
            for x, y in (("full", "plain"), ("b9", "plain"), ("b1", "pb1"), ("b2", "pb2"), ("full_s", "plain_s")):
                o = []
                for s in (x, y):
                    rc, d = run1(exe, s, "%s/r%d_%s.json" % (T, seed, s), {"MC_PROG_SEED": str(seed), "MC_MAX_OUTCOMES": "100000"})
                    o.append(None if rc or d is None or d["capped"] else set(q["o"] for q in d["outcomes"]))
                if o[0] is None or o[0] != o[1]: r.append((seed, x, y))
            return r
        with ThreadPoolExecutor(8) as p:
            for r in p.map(one, range(*a.seeds)):
                for x in r: print("rnd", x, "DIFFER"); bad += 1
        print("rnd: programs", a.seeds)
    if "uring" in a.only:
        real = T + "/real"
        subprocess.run([check.CXX, "-std=c++20", "-O1", "-DREAL", "-DLEN=%d" % a.len, V + "/selftest/uring_conformance.cpp", "-o", real], check=True)
        p = subprocess.run([real, "3"], capture_output=True, text=True)
        if p.returncode == 3: print("uring: io_uring is not available here, skipped")
        else:
            seen = set(x.strip() for x in p.stdout.splitlines())
            exe = build("uring_conformance.cpp", "model", "-DLEN=%d" % a.len)
            open(T + "/observed", "w").write(p.stdout)
            rc, d = run1(exe, "conformance", T + "/u.json", {"MC_MAX_OUTCOMES": "1000000", "OBSERVED": T + "/observed"}, 600)
            model = set(x["o"].strip() for x in d["outcomes"])
            if rc or d["capped"] or len(d["outcomes"]) != d["distinct_outcomes"]: print("uring: model run", rc, d.get("message"), d["capped"], len(d["outcomes"]), d["distinct_outcomes"]); bad += 1
            if os.environ.get("DUMP"): print(sorted(model)[:5], sorted(seen)[:5])
            for x in sorted(seen - model): print("uring: not a behaviour of the model:", x); bad += 1
            print("uring: %d programs, %d observed traces, %d of them produced by the model (%d executions)" % (len(set(x.split(" = ")[0] for x in seen)), len(seen), len(seen & model), d["executions"]))
finally:
    subprocess.run(["rm", "-rf", T])
print("self test", "FAILED" if bad else "passed")
sys.exit(1 if bad else 0)
