#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import checks
NA = {
    "P25": "The specification models one broker and its clients; a bridge needs a second party that plays the remote broker, with prefix rewriting, reconnect timing and loop detection specified for both ends. The technique applies in principle, but that part of the specification has not been written.",
}
PENDING = "not claimed yet: its driver is still being built"
out, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in checks.CHECKS:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
        continue
    c = "python3 run.py --property %s --tier " % i
    mc = checks.MODELS.get(i)
    out.append(dict(property=i, quick_cmd=c + "quick", thorough_cmd=c + "thorough", evidence_file="evidence/%s.json" % i,
                    technique=checks.TECH.get(i, "TLA+ specification; TLC checks recorded executions of the real broker against it (trace validation)")
                    + ("; TLC checks the property on small models of the specification (%s)" % ", ".join(mc) if mc else ""),
                    level=checks.LEVEL.get(i, "model_checking"),
                    level_note=checks.NOTE.get(i, "Every step of randomly driven executions of the real broker (inputs one by one, at quiescence, under a virtual clock) is checked to be a step of the specification; covers what the drivers generate. Trusts harness/shim.c for time and quiescence, and the specification's own statement of MQTT.")))
m = dict(version=1, setup_cmd="python3 -m harness.build", checks=out, not_applicable=na,
         notes="Specification: spec/*.tla (TLA+, TLC). No hooks in /repo: observation through sockets, files and an LD_PRELOAD shim.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out), "checks,", len(na), "not applicable")
