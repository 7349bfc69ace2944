#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md: tables of the properties (harness/checks.py), repaired defects (known-findings.json) and
planted bugs (seeded/*/meta.json, tools/caught.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import checks
HOW = json.load(open(os.path.join(V, "tools/how.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
t = "## How each property is decided\n\nAll by trace validation against `spec/Broker.tla` unless stated; 'drivers' are the input generators of its check with their weights. Quick: about 32 s of driving on 8 cores (300-700 runs of 40-60 steps each); thorough: about 13 minutes (5,000-12,000 runs). What tests cannot reach and this does: histories of dozens of steps over several clients, sessions, restarts and hours of clock time, with every packet of every step judged.\n\n| id | property | what is specified and explored beyond the common part | drivers |\n|---|---|---|---|\n"
for p in props:
    i = p["id"]
    d = ", ".join("%s %d" % (a.replace("gen:", ""), w) for a, w in checks.CHECKS[i]) if i in checks.CHECKS else "not claimed"
    m = checks.MODELS.get(i)
    t += "| %s | %s | %s%s | %s |\n" % (i, p["title"], HOW.get(i, ""), (" TLC model: " + ", ".join(x[0] for x in m)) if m else "", d)
fx = json.load(open(os.path.join(V, "known-findings.json")))
f = ""
for l in fx["fixed"]:
    f += "- " + l.replace("fixed: property=", "") + "\n"
for k in fx["findings"]:
    f += "- **recorded, not repaired** %s: %s\n" % (k["property"], k["what"])
c = json.load(open(os.path.join(V, "tools/caught.json")))
s = "## Planted bugs\n\nEach was written from a property's text, confirmed to build, to pass the stable tests and to fail its own demonstration.\n\n| bug | property | needs | caught by (quick tier) |\n|---|---|---|---|\n"
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    s += "| %s | %s | %s; %s | %s |\n" % (n, m["property"], m["what_it_breaks"], m["needs"], c.get(n, "?"))
d = open(os.path.join(V, "tools/design.in.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(d.replace("@PROPS@", t).replace("@FIXED@", f).replace("@SEEDS@", s))
