"""tools/one.py PID INDEX-SEED(e.g. 77/P02/126) : make that run again and check it; saves /tmp/one.json"""
import sys, random, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import checks, drivers, tlc
seed = sys.argv[1]
parts = checks.CHECKS[seed.split("/")[1]]
rng = random.Random(seed)
d = rng.choices([p[0] for p in parts], [p[1] for p in parts])[0]
kind, _, arg = d.partition(":")
r = drivers.MAKE[kind](arg, rng)
json.dump(dict(why="", record=r), open("/tmp/one.json", "w"))
if len(sys.argv) > 2:
    n = int(sys.argv[2]); r["steps"] = r["steps"][:n]
res, st = tlc.finish(tlc.start([r], r["module"]), 60)
print(d, len(r["steps"]), {k: (v[0], v[1], v[2][:1500]) for k, v in res.items()}, st)
