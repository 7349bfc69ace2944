"""show a replay file: python3 tools/show.py FILE [last n steps]"""
import json, sys
d = json.load(open(sys.argv[1]))
r = d["record"]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1000
print(d["why"][:3000])
print("conf", r["rc"].get("conf"), {k: v for k, v in r["rc"].items() if k not in ("conf", "files")} if "rc" in r else "")
import re
m = re.match(r"step (\d+)", d["why"])
last = int(m.group(1)) if m else len(r["steps"]) - 1
for j, s in list(enumerate(r["steps"]))[max(0, last - n):last + 1]:
    ev = s["ev"]
    f = lambda ev: json.dumps({k: v for k, v in ev.items() if v not in (0, "", [], False, 1000000000, 65535) and k not in ("tb", "plb", "prb", "l")})
    print(j, f(ev) if ev["e"] != "burst" else "burst " + " || ".join(" ; ".join(f(x) for x in q) for q in ev["q"]))
    for c, p in s["out"]:
        print("        ->", c, p["k"], *["%s=%s" % (k, v) for k, v in p.items() if k != "k" and k in ("rc", "rcs", "sp", "t", "p", "q", "r", "d", "id", "sid", "mei", "ta", "pr") and v not in ("", [], -1)])
    if s["closed"]:
        print("        closed", s["closed"])
