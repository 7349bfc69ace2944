"""Runs TLC on batches of recorded executions."""
import json, os, re, subprocess, tempfile, shutil
from .server import VERIF, HarnessError
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def jars():
    d = os.path.dirname(JAR)
    return ":".join(sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar")))


def clean(rec):
    """what the specification gets to see of a recording"""
    hide = ("set", "listeners", "junk", "files", "hex", "what", "cut", "damage")
    # of a fault it is only known that there was one
    fix = lambda k, v: bool(v) if k == "fault" else v
    return dict(cfg=rec["cfg"], steps=[dict(ev={k: fix(k, v) for k, v in s["ev"].items() if k not in hide}, out=s["out"], closed=s["closed"]) for s in rec["steps"]])


def start(records, module="Trace", heap="2g"):
    d = tempfile.mkdtemp(prefix="fmqtlc", dir="/tmp")
    f = os.path.join(d, "trace.ndjson")
    with open(f, "w") as g:
        for r in records:
            g.write(json.dumps(clean(r)) + "\n")
    env = dict(os.environ, TRACE=f)
    log = open(os.path.join(d, "log"), "w")
    p = subprocess.Popen(["java", "-Xmx" + heap, "-Xss128m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d, "-Dtlc2.tool.queue.IStateQueue=StateDeque", "-cp", jars(), "tlc2.TLC", "-noGenerateSpecTE",
                          "-metadir", os.path.join(d, "meta"), "-workers", "1", "-config", module + ".cfg", module + ".tla"], cwd=SPEC, env=env, stdout=log,
                         stderr=subprocess.STDOUT)
    return p, d, len(records)


def finish(h, timeout=600):
    """{index: (accepted?, steps matched, why)}, (states, distinct). Runs that took too long to check are missing."""
    p, d, n = h
    late = False
    try:
        try:
            p.wait(max(1, timeout))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            late = True
        with open(os.path.join(d, "log"), errors="replace") as f:
            t = f.read()
    finally:
        p.kill()
        shutil.rmtree(d, ignore_errors=True)
    res = {}
    for m in re.finditer(r'<<\s*"RUN",\s*(\d+),\s*"(accepted|rejected)",\s*(\d+),\s*(.*?)\s*>>\s*(?=\n<<|\n[A-Z])', t, re.S):
        res[int(m.group(1)) - 1] = (m.group(2) == "accepted", int(m.group(3)), re.sub(r"\s+", " ", m.group(4)))
    if late:
        for m in re.finditer(r'<<\s*"DONE",\s*(\d+)\s*>>', t):
            res[int(m.group(1)) - 1] = (True, 0, "")
        return res, (0, 0)
    if len(res) != n:
        m = re.search(r"Error: .*", t, re.S)
        raise HarnessError("TLC failed:\n" + (m.group(0)[:1500] + "\n...\n" if m else "") + t[-1500:])
    m = re.search(r"(\d+) states generated, (\d+) distinct", t)
    return res, (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def check(records, module="Trace", timeout=60):
    """as finish; a batch that takes too long is checked one by one"""
    res, st = finish(start(records, module), timeout)
    return more(records, res, st, module, timeout)


def more(records, res, st, module="Trace", timeout=60):
    for i in range(len(records)):
        if i not in res:
            r1, s1 = finish(start([records[i]], module), timeout)
            if 0 in r1:
                res[i] = r1[0]
            st = (st[0] + s1[0], st[1] + s1[1])
    return res, st


def finish_quiet(h):
    try:
        finish(h, 1)
    except HarnessError:
        pass
