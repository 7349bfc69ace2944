"""Models: small closed worlds in which TLC explores spec/MC.tla exhaustively (breadth first), and from which it simulates behaviours that are
replayed on the real broker."""
import json, os, re, shutil, signal, subprocess, tempfile, time
from .drive import CFG0
from .tlc import jars

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
INF = 1000000000


def will(t="w", q=0, r=False, delay=0, mei=-1):
    return dict(t=[t], p="w", q=q, r=r, pr="", empty=False, tb=1, plb=2, prb=0, delay=delay, mei=mei)


def connect(cl, max=1, ver=5, clean=False, sei=INF, ka=60000, rm=65535, mps=INF, tam=0, user="", w=None, takeover=False):
    return dict(e="connect", cl=cl, max=max, takeover=takeover, ev=dict(
        e="connect", ver=ver, cl=cl, gen="", badid=False, badrm=False, clean=clean, ka=ka, hasuser=bool(user), user=user, pw="x" if user else "", lanon="",
        sei=sei if ver == 5 else 0, rm=rm, mps=mps, tam=tam, bridge=False, will=[w] if w else [], l="main", tot=50))


def publish(cl, t="t", q=0, max=1, r=False, empty=False, mei=-1, plb=2, ta=0):
    return dict(e="publish", cl=cl, max=max, ev=dict(e="publish", q=q, r=r, t=t.split("/"), empty=empty, pr="", mei=mei, ta=ta, tb=len(t), plb=0 if empty else plb, prb=0,
                                                     dup=False, tot=50))


def subscribe(cl, *fs, max=1, sid=0):
    return dict(e="subscribe", cl=cl, max=max, ev=dict(e="subscribe", sid=sid, fs=[
        dict(f=f.split("/"), q=q, nl="n" in o, rap="r" in o, rh=1 if "1" in o else 2 if "2" in o else 0) for f, q, o in [(list(x) + [""])[:3] for x in fs]]))


def unsubscribe(cl, *fs, max=1):
    return dict(e="unsubscribe", cl=cl, max=max, ev=dict(e="unsubscribe", fs=[f.split("/") for f in fs]))


def disconnect(cl, max=1, rc=0, sei=-1):
    return dict(e="disconnect", cl=cl, max=max, ev=dict(e="disconnect", rc=rc, sei=sei))


def close(cl, max=1):
    return dict(e="close", cl=cl, max=max)


def ack(cl, max=99):
    return dict(e="ack", cl=cl, max=max)


def resend(cl, max=99):
    return dict(e="resend", cl=cl, max=max)


def advance(d, max=1):
    return dict(e="advance", cl="", d=d, max=max)


def restart(max=1):
    return dict(e="restart", cl="", max=max)


def ups(*cls, **kw):
    return [connect(c, **kw) for c in cls]


def model(cfg=(), clients="ab", setup=(), ops=(), depth=6, check=(), copies=1, retained=False, watch=0, **kw):
    c = dict(CFG0, dollar=["$SYS", "$share", "$x"], **dict(cfg))
    cl = list(clients)
    if watch:
        cl.append("watch")
        setup = [connect("watch", ver=4, ka=0), subscribe("watch", ("w", 0))] + list(setup)
        for s in setup[:2]:
            s["ev"].setdefault("id", 90)
    setup = [dict(e=s["e"], cl=s["cl"], ev=dict(s["ev"], **({"id": 90} if s["e"] == "subscribe" else {}))) for s in setup]
    return dict(cfg=c, clients=cl, setup=setup, ops=list(ops), depth=depth, check=list(check), copies=copies, retained=retained, watch=watch, **kw)


def models():
    m = {}
    # at least once, exactly once: one publisher, one receiver, both may lose their connection and come back
    for q, p in ((1, "P02"), (2, "P03")):
        m[p] = model(setup=ups("a", "b") + [subscribe("b", ("t", 2))],
                     ops=[publish("a", q=q, max=2), ack("a"), ack("b"), close("a", 1), close("b", 2), connect("a", 1), connect("b", 2), resend("a"), disconnect("b", 1)],
                     check=["P02", "P03", "P04", "P05", "P06", "P01"], depth=9)
    m["P04"] = model(setup=ups("a") + [connect("b", rm=2), subscribe("b", ("t", 2))],
                     ops=[publish("a", q=1, max=3), publish("a", q=2, max=2), ack("b"), close("b", 1), connect("b", 1, rm=1), connect("b", 1, rm=2)],
                     check=["P04", "P34", "P05"], depth=8)
    m["P05"] = model(setup=ups("a", "c", "b") + [subscribe("b", ("t", 2), ("u", 1))],
                     ops=[publish("a", q=1, max=2), publish("c", q=1, max=2), publish("a", "u", q=2, max=1), publish("a", q=0, max=1), ack("b", 2), close("b", 1), connect("b", 1)],
                     clients="abc", check=["P05", "P01", "P02"], depth=8)
    m["P01"] = model(setup=ups("a", "b"), clients="ab", copies=3,
                     ops=[subscribe("a", ("t", 0)), subscribe("b", ("+", 1)), subscribe("b", ("#", 0, "n")), subscribe("b", ("t/u", 0)), subscribe("a", ("$x/#", 0)), unsubscribe("b", "+"),
                          unsubscribe("a", "t"), publish("a", "t", max=1), publish("b", "t/u", max=1), publish("b", "t", q=1), publish("a", "$x/t"), close("b", 1), connect("b", 1)],
                     check=["P01", "P17", "P34", "P02"], depth=6, retained=False)
    ses = [connect("a", 2, sei=100, takeover=True), connect("a", 1, sei=0, takeover=True), connect("a", 1, clean=True, sei=100, takeover=True), connect("a", 1, ver=4, clean=True, takeover=True),
           connect("a", 1, ver=4, clean=False, takeover=True)]
    m["P06"] = model(ops=ses + [subscribe("a", ("t", 1)), publish("b", q=1, max=1), disconnect("a", 1), disconnect("a", 1, sei=0), close("a", 1), advance(50, 2), advance(200, 1), restart(1)],
                     setup=ups("b"), cfg=dict(persist=True), check=["P06", "P07", "P08", "P01", "P02", "P19"], depth=7)
    wills = [connect("a", 1, sei=100, w=will(delay=0), takeover=True), connect("a", 1, sei=100, w=will(delay=20), takeover=True), connect("a", 1, sei=0, w=will(delay=20), takeover=True),
             connect("a", 1, sei=100, clean=True, w=will(delay=200), takeover=True), connect("a", 1, ver=4, w=will(), takeover=True), connect("a", 1, takeover=True)]
    m["P09"] = model(clients="a", watch=1, cfg=dict(persist=True), ops=wills + [disconnect("a", 1), disconnect("a", 1, rc=4), close("a", 2), advance(40, 2), advance(400, 1), restart(1)],
                     check=["P09", "P08", "P06", "P27"], depth=6)
    m["P10"] = model(setup=ups("a", "b"), retained=True, copies=9,
                     ops=[publish("a", "t", r=True, max=2), publish("b", "t/u", q=1, r=True, max=1), publish("b", "t", r=True, empty=True), publish("a", "t", q=0),
                          subscribe("a", ("t", 0)), subscribe("b", ("#", 1)), subscribe("b", ("t/+", 0)), subscribe("a", ("t", 1, "1")), restart(1), subscribe("b", ("#", 0, "2")), connect("a"), connect("b")],
                     cfg=dict(persist=True), check=["P10", "P11", "P19"], depth=6)
    m["P11"] = model(setup=ups("a", "b"), retained=True, copies=9,
                     ops=[publish("a", "t", r=True, max=2), publish("b", "t", q=1, r=False, max=1), subscribe("a", ("t", 0, "r")), subscribe("b", ("t", 1, "1")), subscribe("b", ("+", 0, "2n")),
                          subscribe("b", ("t", 0, "r1")), unsubscribe("b", "t"), publish("b", "t", r=True, q=1)],
                     check=["P11", "P10", "P01", "P17"], depth=7)
    m["P13"] = model(setup=ups("a", "b", "c"), clients="abc", copies=9,
                     ops=[subscribe("a", ("$share/g/t", 1)), subscribe("b", ("$share/g/t", 0)), subscribe("c", ("$share/h/+", 1)), subscribe("c", ("$share/g/t", 1)), unsubscribe("b", "$share/g/t"),
                          publish("a", q=1, max=2), publish("c", q=0, max=2), close("b", 1), connect("b", 1), close("a", 1)],
                     check=["P13", "P01"], depth=6)
    m["P14"] = model(setup=ups("a", "b") + [subscribe("b", ("t", 1))], retained=True, copies=9,
                     ops=[publish("a", q=1, mei=30, max=2), publish("a", q=1, mei=300), publish("a", q=1, r=True, mei=30), close("b", 2), connect("b", 2), advance(20, 2), advance(100, 1), subscribe("a", ("#", 1))],
                     check=["P14", "P02", "P10"], depth=7)
    m["P17"] = model(setup=ups("a", "b"), copies=9,
                     ops=[subscribe("b", ("t", 1), sid=1), subscribe("b", ("t", 0), sid=2), subscribe("b", ("+", 2), sid=3), subscribe("b", ("t", 2, "n")), unsubscribe("b", "t"), unsubscribe("b", "+"),
                          publish("a", q=2), publish("a", q=1), publish("b", q=0), close("b"), connect("b")],
                     check=["P17", "P01", "P34"], depth=6)
    m["P18"] = model(setup=ups("a") + [connect("b", tam=1), subscribe("b", ("#", 1))], copies=9,
                     ops=[publish("a", "t", max=2), publish("a", "u", q=1, max=2), publish("a", "t/u", max=1), close("b"), connect("b", tam=2), connect("b", tam=1), ack("b")],
                     check=["P18", "P01", "P24"], depth=8)
    acl = [dict(kind="anon", user="", acc="readwrite", f=["t"]), dict(kind="anon", user="", acc="read", f=["u"]), dict(kind="pattern", user="", acc="write", f=["c", "%c"]),
           dict(kind="pattern", user="", acc="read", f=["c", "#"]), dict(kind="anon", user="", acc="deny", f=["c", "b", "x"])]
    m["P16"] = model(setup=ups("a", "b"), retained=True, copies=9, cfg=dict(useacl=True, acl=acl),
                     ops=[subscribe("b", ("#", 1)), subscribe("a", ("c/+", 0)), publish("a", "t", q=1, r=True), publish("a", "u", q=1), publish("b", "c/b", r=True), publish("a", "c/b", q=1), publish("b", "c/b/x"),
                          close("b"), connect("b"), subscribe("a", ("+", 1))],
                     check=["P16"], depth=6)
    m["P19"] = model(setup=ups("a", "b") + [subscribe("b", ("t", 2))], cfg=dict(persist=True),
                     ops=[publish("a", q=1), publish("a", q=2, max=2), ack("a"), ack("b"), close("b", 1), restart(2), connect("a", 2), connect("b", 2), resend("a"), advance(20, 1)],
                     check=["P19", "P02", "P03", "P04", "P05", "P06"], depth=8)
    m["P23"] = model(clients="ab", watch=1,
                     ops=[connect("a", 1, ka=10, w=will()), connect("a", 1, ka=100), connect("a", 1, ver=4, ka=0), connect("b", 1, ver=4, ka=10), dict(e="ping", cl="a", max=2, ev=dict(e="ping")),
                          publish("b", max=1), advance(2, 2), advance(60, 2), advance(600, 1)],
                     check=["P23", "P09"], depth=7)
    m["P24"] = model(setup=ups("a") + [connect("b", mps=60, tam=1), subscribe("b", ("#", 1))], copies=9,
                     ops=[publish("a", "t", plb=45, max=1), publish("a", "t", q=1, plb=50), publish("a", "u", q=1, plb=60), publish("a", "t", q=1, plb=2), close("b"), connect("b", mps=40), connect("b", mps=70), ack("b")],
                     check=["P24", "P04", "P18"], depth=7)
    return m


# how many inputs deep each model is explored: on every change, and thoroughly
DEPTH = {"P01": (5, 7), "P02": (11, 14), "P03": (8, 11), "P04": (8, 11), "P05": (6, 8), "P06": (5, 7), "P09": (5, 7), "P10": (5, 7), "P11": (7, 9), "P13": (6, 8), "P14": (6, 8),
         "P16": (6, 8), "P17": (6, 8), "P18": (9, 12), "P19": (7, 10), "P23": (7, 9), "P24": (9, 12)}


def write(name, d, depth=None, more=1):
    mo = models()[name]
    if depth:
        mo["depth"] = depth
    for o in mo["ops"]:
        o["max"] *= more
    p = os.path.join(d, "model.json")
    open(p, "w").write(json.dumps(mo) + "\n")
    return p


def start(name, depth=None, workers=2, simulate=None, seed=0, limit=100, heap="2g"):
    d = tempfile.mkdtemp(prefix="fmqmc-", dir=os.environ.get("FMQ_TMP", "/tmp"))
    mp = write(name, d, depth, 3 if simulate else 1)
    for f in ("Broker.tla", "Disk.tla", "MC.tla"):
        shutil.copy(os.path.join(SPEC, f), d)
    cfg = "SPECIFICATION Spec\nCONSTRAINT Bounded\nALIAS Short\nCHECK_DEADLOCK FALSE\n"
    cfg += "INVARIANT Trail\n" if simulate else "INVARIANT NoError\nINVARIANT Holds\nVIEW View\n"
    open(os.path.join(d, "MC.cfg"), "w").write(cfg)
    cmd = ["timeout", str(limit), "java", "-Xmx" + heap, "-Xss32m", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + d, "-cp", jars(), "tlc2.TLC", "-config", "MC.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", "200", "-seed", str(seed)]
    env = dict(os.environ, MODEL=mp)
    out = open(os.path.join(d, "out"), "w")
    return dict(name=name, d=d, t=time.time(), p=subprocess.Popen(cmd + ["MC.tla"], cwd=d, env=env, stdout=out, stderr=subprocess.STDOUT, start_new_session=True))


def trails(name, num, seed, depth=22, limit=60):
    """behaviours of the model: lists of inputs"""
    r = finish(start(name, depth, 1, num, seed, limit))
    t = gather(r)
    if not t:
        raise RuntimeError("no behaviours of %s: %s" % (name, r["out"][-2000:]))
    return t


def gather(r):
    out = []
    for t in r["trails"]:
        if out and t[:len(out[-1])] == out[-1]:
            out[-1] = t
        else:
            out.append(t)
    return out


def kill(h):
    try:
        os.killpg(h["p"].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    h["p"].wait()
    shutil.rmtree(h["d"], ignore_errors=True)


def finish(h):
    rc = h["p"].wait()
    end = os.path.getmtime(os.path.join(h["d"], "out"))
    s = open(os.path.join(h["d"], "out"), errors="replace").read()
    shutil.rmtree(h["d"], ignore_errors=True)
    st = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", s)
    n = lambda x: int(x.replace(",", ""))
    dep = re.findall(r"depth of the complete state graph search is (\d+)", s)
    viol = re.findall(r"Invariant (\w+) is violated", s)
    i = s.find("is violated")
    return dict(name=h["name"], tail=s[max(0, i - 30):][:6000] if viol else "", generated=n(st[-1][0]) if st else 0, distinct=n(st[-1][1]) if st else 0, depth=int(dep[-1]) if dep else 0, exhaustive="Model checking completed. No error" in s,
                wall_s=round(end - h["t"], 1), violated=viol, error="" if rc in (0, 12, 124) else s[-3000:], out=s, rc=rc,
                trails=[json.loads(json.loads('"%s"' % x)) for x in re.findall(r'"TRAIL (.*)"\n', s)])


if __name__ == "__main__":
    import sys
    r = finish(start(sys.argv[1], depth=int(sys.argv[2]) if len(sys.argv) > 2 else None, workers=4, simulate=int(sys.argv[3]) if len(sys.argv) > 3 else None, limit=300))
    out = r.pop("out")
    t = r.pop("trails")
    print(r, len(t))
    if r["violated"] or r["error"]:
        print(out[-int(os.environ.get("TAIL", 6000)):])
