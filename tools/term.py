"""tools/term.py FILE...: the step at which a replay was rejected"""
import json, re, sys
for f in sys.argv[1:]:
    r = json.load(open(f)); rec = r["record"]
    print("==", f, r["why"][:300], rec["rc"].get("conf"), rec.get("failure"))
    m = re.match(r"step (-?\d+)", r["why"])
    n = int(m.group(1)) if m else -1
    for s in rec["steps"][max(0, n):n + 1]:
        print(json.dumps(s["ev"])[:1200])
        for o in s["out"]:
            print("   ", o[0], {k: v for k, v in o[1].items() if v not in (0, "", [], -1)})
        print("    closed", s["closed"])
