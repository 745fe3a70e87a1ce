#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md, known_findings.txt and the planted bugs (tools/seeds.json: what caught them)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/tools/DESIGN.in.md").read()
fixes = [l[len("fixed: property="):].rstrip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:")]
t = ["| property | commit | what failed |", "|---|---|---|"]
for f in fixes:
    p, c, w = f.split(" ", 2)
    t.append("| %s | %s | %s |" % (p, c, w.replace("|", "\\|")))
s = s.replace("@@FIXES@@", "\n".join(t))
by = json.load(open(V + "/tools/seeds.json")) if os.path.exists(V + "/tools/seeds.json") else {}
t = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    t.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], by.get(n, "(not recorded)")))
s = s.replace("@@SEEDS@@", "\n".join(t))
open(V + "/DESIGN.md", "w").write(s)
