#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "P35": "Needs a CUDA compiler and GPU, and Windows: none of them is here, so these contexts do not compile, let alone run under the checker's scheduler.",
}
NOTE = ("Stateless model checking of the real headers: every interleaving (within the preemption bound reported per scenario; unbounded with DPOR "
        "where marked) and every data choice of small closed harnesses is executed; oracles are reference results, a byte-precise happens-before "
        "race detector and lifetime, leak, deadlock and livelock monitors. Trusts: g++'s TSan instrumentation, the engine in mc/ (validated by selftest/), "
        "the harness' bounds on threads and operations.")
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(V, "harness", i.lower() + "*.cpp")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="stateless model checking of the implementation (controlled scheduler, DPOR / preemption bounding, exhaustive data choices)",
            level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no harness yet")))
m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="MC_HARNESS", enable="checks compile their harnesses with -DMC_HARNESS=1; no hook was needed in /repo, instrumentation is by compiler flag and symbol interposition", source_commits=[]),
         checks=checks, not_applicable=na, notes="See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
