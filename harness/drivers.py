"""Makes recorded executions. MAKE[kind](argument, rng) -> record; AGAIN[driver](record) -> record of the same inputs given again."""
import json, os
from . import gen, models, profiles
from .drive import CFG0, Run
from .server import ServerDied, Stuck

POOL = {}


# profiles in which some of the histories see the hourly cleaning of the subscription and retained message trees
AGED = {"match", "qos1", "session", "will", "retained", "retopt", "retmode", "share", "subs", "expiry", "restart", "acl"}


def make_gen(name, rng):
    rc, prof = profiles.PROFILES[name](rng)
    if name in AGED and rng.random() < 0.2:
        rc["conf"] = dict(rc.get("conf") or {}, subscription_node_lifetime=rng.choice([0, 1, 1000]), retained_message_node_lifetime=rng.choice([0, 5, 1000]))
        prof["adv"] = prof.get("adv", [2, 10, 60]) + [2000, 2000, 4100]
        prof["w"]["advance"] = max(prof["w"]["advance"], 2)
        if name in ("match", "subs") and rng.random() < 0.4:  # nodes with more than 15 children are cleaned in portions
            prof["filters"] = prof.get("filters", ["t"])[:6] + ["z/%d" % i for i in range(24)]
            prof["topics"] = prof.get("topics", ["t"]) + ["z/%d" % i for i in range(0, 24, 3)]
            prof["nfs"] = [1, 12, 24]
    return gen.Gen(rc, prof, rng).go()


def make_bulk(name, rng):
    """packet ids come round while some are in use"""
    big = 0
    conf, cfg = {}, {}
    storage = rng.random() < 0.3
    rc = dict(conf=conf, cfg=dict(cfg, persist=storage), storage=storage)
    prof = dict(clients=["a", "b", "c"], vers=[5, 5, 4, 3], clean=[False], sei=[2000], topics=["t", "t/u", "s"], filters=["t", "t/#", "s"], pq=[1, 2, 2], sq=[1, 2, 2],
                steps=8, p_dup2=0, ackmode="random", rm=[65535],
                w=dict(connect=1, publish=14, ack=7, subscribe=1, unsubscribe=0, disconnect=0.3, close=1, advance=0.3, ping=0))
    g = gen.Gen(rc, prof, rng)

    def bulk(n, q):
        def f():
            c, s = (g.cl[x].conn if x in g.cl else 0 for x in ("b", "a"))
            if c not in g.up or s not in g.up:
                return None
            return dict(e="bulk", c=c, s=s, t=["bulk"], q=q, n=n)
        return f

    def sub():
        c = g.cl["a"].conn if "a" in g.cl else 0
        if c not in g.up:
            return None
        ev = g.ev_subscribe(c)
        ev["fs"] = [dict(f=["bulk"], q=2, nl=False, rap=False, rh=0), dict(f=["t", "#"], q=rng.choice([1, 2]), nl=False, rap=False, rh=0)]
        return ev
    more = [lambda: g.choose()] * 6
    up = [lambda cl=cl: g.ev_connect(cl) for cl in ("a", "b")]
    few = rng.choice([0, 3, 20, 20])
    q = rng.choice([1, 1, 1, 2]) if name == "deep" else 1
    sc = up + [sub] + [lambda: g.ev_publish(g.cl["b"].conn) if g.cl.get("b") and g.cl["b"].conn in g.up else None] * few

    def rec():
        """PUBREC for a QoS 2 message: its id stays in use until PUBCOMP"""
        for c in sorted(g.up):
            for x in g.todo.get(c, []):
                if x[0] == "pubrec" and g.up[c] == "a":
                    g.todo[c].remove(x)
                    return dict(e="pubrec", c=c, id=x[1], rc=0)
    sc += [rec] * rng.choice([1, 2, 10])
    if storage and rng.random() < 0.5:
        sc += [lambda: "restart"] + up
    sc += [bulk(rng.choice([65536, 65560, 65700]) + rng.randint(0, 9), q)] + [lambda: g.ev_publish()] * 10 + [lambda: g.ev_ack()] * rng.choice([0, 4])
    if rng.random() < 0.3:
        sc += [lambda: "restart" if storage else None, lambda: g.ev_connect("a")]

    def go():
        for f in sc:
            g.step(f())
    old = g.prologue
    g.prologue = lambda: (old(), go())
    return g.go()


def trails(name, rng):
    """behaviours simulated from the model (harness/models.py): run.py has them made ahead of time"""
    if not POOL.get(name):
        f = os.path.join(os.environ.get("FMQ_TRAILS", "/nonexistent"), name + ".json")
        if os.path.exists(f):
            with open(f) as g:
                POOL[name] = json.load(g)
        else:
            POOL[name] = models.trails(name, 20, rng.randrange(1 << 30))
    return POOL[name]


def ready(driver):
    kind, _, name = driver.partition(":")
    return kind != "model" or bool(POOL.get(name)) or os.path.exists(os.path.join(os.environ.get("FMQ_TRAILS", "/nonexistent"), name + ".json"))


def make_model(name, rng):
    """A behaviour of the model, given to the real broker. Packet ids are the broker's choice, so what a client acknowledges is found by the message; what the broker
    did otherwise than in the model's behaviour (it may choose among several things) makes the inputs that presuppose it fall away."""
    t = trails(name, rng)
    trail = json.loads(json.dumps(t.pop(rng.randrange(len(t))) if len(t) > 1 else t[0]))
    mo = models.models()[name]
    cfg = {k: v for k, v in mo["cfg"].items() if k not in CFG0 or v != CFG0[k]}
    rc = dict(conf=dict(mo.get("conf", {})), cfg=cfg, storage=bool(mo["cfg"]["persist"]))
    if mo["cfg"]["useacl"]:
        rc["conf"]["mosquitto_acl_file"] = "@DIR@/acl"
        rc["files"] = {"acl": profiles.acl_file(mo["cfg"]["acl"], rng)}
    run = Run(rc)
    up, got, rel, rec, ids, own = {}, {}, {}, {}, {}, {}      # by connection: client; publishes to be acknowledged; PUBRELs; by client: PUBRECs received; ids by the model's
    try:
        for ev in trail:
            e, c = ev["e"], ev.get("c", 0)
            if e == "connect":
                got[c], rel[c] = [], []
            elif e in ("advance", "term", "start"):
                pass
            elif c not in up:
                continue
            of = ev.pop("of", "")
            if e in ("puback", "pubrec"):
                q = 1 if e == "puback" else 2
                m = [x for x in got[c] if x[1] == q and x[2] == of]
                if not m:
                    continue
                got[c].remove(m[0])
                ids[up[c], ev["id"]] = m[0][0]
                ev["id"] = m[0][0]
            elif e == "pubcomp":
                i = ids.get((up[c], ev["id"]))
                if i not in rel[c]:
                    i = rel[c][0] if rel[c] else None
                if i is None:
                    continue
                rel[c].remove(i)
                ev["id"] = i
            elif e == "pubrel":
                if ev["id"] not in rec.get(up[c], set()):
                    continue
                rec[up[c]].discard(ev["id"])
            elif e == "publish" and ev["q"] == 2 and not ev.get("dup"):
                rec.setdefault(up[c], set()).discard(ev["id"])
            out, closed = run.apply(ev)
            if e == "connect":
                up[c] = ev["cl"]
            elif e in ("close", "disconnect"):
                up.pop(c, None)
            elif e == "term":
                up = {}
            for d, pk in out:
                if pk["k"] == "publish" and pk["q"] > 0:
                    got[d].append((pk["id"], pk["q"], pk["p"]))
                elif pk["k"] == "pubrel":
                    rel[d].append(pk["id"])
                elif pk["k"] == "pubrec" and d in up:
                    rec.setdefault(up[d], set()).add(pk["id"])
            for d in closed:
                up.pop(d, None)
    except (ServerDied, Stuck) as x:
        run.failure = str(x)
    finally:
        run.destroy()
    return run.record()


def again_gen(rec):
    steps = list(rec["steps"])
    if rec.get("failure") and rec.get("doing"):
        steps.append(dict(ev=rec["doing"]))
    return Run(rec["rc"]).replay(steps)


def again_boot(rec):
    """the broker did not come up"""
    import random
    d, seed = rec["made"]
    kind, _, arg = d.partition(":")
    rng = random.Random(seed)
    rng.random()
    return MAKE[kind](arg, rng)


MAKE = {"gen": make_gen, "bulk": make_bulk, "model": make_model}
AGAIN = {"gen": again_gen, "bulk": again_gen, "boot": again_boot}
