"""Generates inputs at random, steered by a profile, on top of drive.Run. Keeps just enough of a mirror to make the inputs interesting;
nothing here judges the broker."""
import copy, json, random
from . import mqtt, bad
from .server import ServerDied, Stuck
from .drive import Run, INF, pay, prbytes, tbytes, CFG0

# A profile is a dict; see DEFAULT for the knobs. Values that are lists are sampled uniformly (repeat a value to weigh it).
DEFAULT = dict(
    steps=40, clients=["a", "b", "c"], users={}, vers=[5, 5, 5, 4, 4, 3], clean=[True, False, False], sei=[0, 30, 300, 2000, INF], rm=[65535], tam=[0],
    mps=[INF], ka3=[0], ka5=[65535], p_will=0.0, wdelay=[0, 0, 10, 100], wq=[0, 1, 2], wr=[False], bridge=[False],
    topics=["t", "t/u", "s"], filters=["t", "t/#", "+", "#", "s"], shares=[], pq=[0, 1, 2], sq=[0, 1, 2], pr=[False], p_empty=0.0, mei=[-1], pad=[0],
    props=[""], sid=[0], nl=[False], rap=[False], rh=[0], p_alias=0.0, alias=[1, 2, 3], nfs=[1, 1, 2], p_dup2=0.3, p_badalias=0.0,
    adv=[2, 10, 60], drc=[0], dsei=[-1], ackmode="fifo", rcneg=0.0, bads=[], lanon="", maxconn=6, wtopics=None, listeners=["main"],
    w=dict(connect=3, publish=10, ack=8, subscribe=4, unsubscribe=1, disconnect=1, close=1, advance=1, ping=0.3),
)


class Client:
    def __init__(self):
        self.pub2 = {}       # publisher side: id -> [publish event, released?]
        self.lastid = 0
        self.sei = 0
        self.conn = 0
        self.filters = set()


class Gen:
    def __init__(self, rc, prof, rng):
        self.p = dict(DEFAULT, **{k: v for k, v in prof.items() if k != "w"})
        self.w = dict(DEFAULT["w"], **prof.get("w", {}))
        self.rng = rng
        self.run = Run(rc)
        self.cfg = self.run.cfg
        self.cfgnow = dict(self.cfg)     # as configured by now
        self.mpsold = self.cfg["mpsin"]
        self.defect = False              # the ACL file is defective: a broker that starts with it denies everything
        self.missing = set()             # files the configuration names that are not there: then it is invalid
        self.now = self.lastsave = self.cfg["now"]
        self.nc = 0
        self.nm = 0
        self.up = {}         # conn -> client id
        self.cl = {}         # client id -> Client
        self.todo = {}       # conn -> [(kind, id)]
        self.ain = {}
        self.seen = {}       # conn -> ids ever seen
        self.dead = []       # times at which something becomes due
        self.cls = []
        self.gone = set()
        self.idle = {}
        self.last = {}       # conn -> time of its last packet
        self.half = set()    # connections in the middle of a packet
        self.paused = set()  # connections that do not read at the moment
        self.pending = {}    # connections the plugin has not decided about: the number of packets sent since CONNECT
        self.script = []     # inputs to come, as functions that make them

    # ---------------------------------------------------------------- bookkeeping of what came back
    def do(self, ev):
        c0 = dict(self.up)
        out, closed = self.run.apply(ev)
        for c, pk in out:
            k = pk["k"]
            t = self.todo.setdefault(c, [])
            if k == "publish" and pk["q"]:
                t.append(("puback" if pk["q"] == 1 else "pubrec", pk["id"]))
                self.seen.setdefault(c, set()).add(pk["id"])
            elif k == "pubrel":
                t.append(("pubcomp", pk["id"]))
            elif k == "pubrec" and pk["rc"] < 128:
                t.append(("pubrel", pk["id"]))
            elif k == "pubrec":
                self.client(c).pub2.pop(pk["id"], None)
            elif k == "connack" and pk["rc"] == 0:
                con = self.run.con[c]
                cl = con["cl"] or con["gen"]
                self.up[c] = cl
                x = self.cl.setdefault(cl, Client())
                if not pk["sp"]:
                    x.pub2, x.filters = {}, set()
                else:
                    for i, (pe, rel) in x.pub2.items():
                        pass
                x.conn = c
                x.sei = (con["sei"] if con["ver"] == 5 else (0 if con["clean"] else INF))
        for c in closed:
            self.lost(c)
            self.idle.pop(c, None)
        if self.cfg["plug"]:
            for x in [ev] if ev["e"] == "connect" else sum(ev["q"], []) if ev["e"] == "burst" else []:
                if x["e"] == "connect" and x["c"] not in self.up:
                    self.pending[x["c"]] = 0
            self.pending = {c: n for c, n in self.pending.items() if c not in self.up and c not in self.gone}
        return out, closed

    def lost(self, c):
        if c in self.up:
            x = self.cl[self.up[c]]
            if x.conn == c:
                x.conn = 0
                s = min(x.sei, self.cfgnow["sesexp"])
                self.due(s)
                w = self.run.con[c]["will"]
                if w:
                    self.due(w[0]["delay"])
            del self.up[c]
        self.gone.add(c)

    def due(self, d):
        if d < INF:
            self.dead.append(self.now + d)

    def client(self, c):
        return self.cl[self.up[c]] if c in self.up else Client()

    # ---------------------------------------------------------------- making inputs
    def pick(self, k):
        return self.rng.choice(self.p[k])

    def payload(self):
        self.nm += 1
        p = "m%d" % self.nm
        return p, max(len(p), self.pick("pad"))

    def will(self, cl, ver):
        p, n = self.payload()
        wt = self.p["wtopics"]
        t = (self.rng.choice(wt) if wt else "w/%s" % cl).replace("%c", cl).split("/")
        pr = self.pick("props") if ver == 5 else ""
        e = self.rng.random() < self.p["p_empty"]
        if e:
            p, n = "", 0
        return [dict(t=t, p=p, q=self.pick("wq"), r=self.pick("wr"), pr=pr, empty=e, tb=tbytes(t), plb=n, prb=prbytes(pr),
                     delay=self.pick("wdelay") if ver == 5 else 0, mei=self.pick("mei") if ver == 5 else -1)]

    def ev_connect(self, cl=None, **kw):
        r = self.rng
        if len(self.up) >= self.p["maxconn"]:
            return None
        self.nc += 1
        ver = kw.get("ver") or self.pick("vers")
        if cl is None:
            cl = self.pick("clients")
        if cl == "" and ver != 5 and r.random() < 0.7:
            ver = 5
        us = self.p["users"].get(cl)
        u = r.choice(us) if us else None
        clean = self.pick("clean")
        ev = dict(e="connect", c=self.nc, ver=ver, cl=cl, gen="", badid=False, badrm=False, clean=clean, ka=self.pick("ka5" if ver == 5 else "ka3"),
                  hasuser=u is not None, user=u[0] if u else "", pw=u[1] if u else "", lanon="", sei=self.pick("sei") if ver == 5 else 0,
                  rm=self.pick("rm") if ver == 5 else 65535, mps=self.pick("mps") if ver == 5 else INF, tam=self.pick("tam") if ver == 5 else 0,
                  bridge=(ver < 5 and self.pick("bridge")), will=self.will(cl, ver) if r.random() < self.p["p_will"] else [])
        if u and self.p.get("tag") and self.cfgnow["users"].get(u[0]) != u[1]:
            ev["pw"] = "k%d" % self.nc
        if ver == 5 and r.random() < self.p.get("p_am", 0):
            ev["am"], ev["xd"] = "m%d" % r.randint(1, 2), "x%d" % self.nc
        l = self.pick("listeners")
        ev["l"] = l
        ev["lanon"] = self.run.srv.listeners[l].get("allow_anonymous", "")
        ev.update(kw)
        return ev

    def conn(self):
        return self.rng.choice(sorted(self.up)) if self.up else None

    def ev_publish(self, c=None):
        r = self.rng
        c = c or self.conn()
        if not c:
            return None
        k = self.run.con[c]
        x = self.client(c)
        ver = k["ver"]
        q = self.pick("pq")
        if q == 2 and x.pub2 and r.random() < self.p["p_dup2"]:
            i = r.choice(sorted(x.pub2))
            ev = copy.deepcopy(x.pub2[i][0])
            ev["c"], ev["dup"] = c, True
            ev["ta"] = 0
            if not ev["t"]:
                return None
            if ver != 5:
                ev["pr"], ev["mei"], ev["prb"] = "", -1, 0
            return ev
        t = self.pick("topics").split("/")
        p, n = self.payload()
        e = r.random() < self.p["p_empty"]
        if e:
            p, n = "", 0
        pr = self.pick("props") if ver == 5 else ""
        ev = dict(e="publish", c=c, q=q, r=self.pick("pr"), id=0, t=t, p=p, empty=e, pr=pr, mei=self.pick("mei") if ver == 5 else -1, ta=0,
                  tb=tbytes(t), plb=n, prb=prbytes(pr))
        if ver == 5 and r.random() < self.p["p_alias"]:
            known = self.ain.setdefault(c, {})
            a = self.pick("alias")
            if a in known and r.random() < 0.6 or r.random() < self.p["p_badalias"]:
                ev["t"], ev["tb"] = [], 0
            else:
                known[a] = t
            ev["ta"] = a
        if q:
            x.lastid = x.lastid % 60000 + 1
            ev["id"] = x.lastid
        if q == 2:
            x.pub2[ev["id"]] = [ev, False]
        return ev

    def ev_ack(self):
        r = self.rng
        cs = [c for c in sorted(self.up) if self.todo.get(c)]
        if not cs:
            return None
        c = r.choice(cs)
        t = self.todo[c]
        if self.p["ackmode"] == "fifo":
            i = 0
        elif self.p["ackmode"] == "random":
            i = r.randrange(len(t))
        else:
            i = 0 if r.random() < 0.7 else r.randrange(len(t))
        k, pid = t.pop(i)
        rc = 0
        if self.run.con[c]["ver"] == 5 and k in ("puback", "pubrec") and r.random() < self.p["rcneg"]:
            rc = r.choice([128, 131, 151])
        elif self.run.con[c]["ver"] == 5 and k in ("puback", "pubrec") and r.random() < self.p["rcneg"] / 2:
            rc = 16
        if k == "pubrel":
            self.client(c).pub2.pop(pid, None)
        return dict(e=k, c=c, id=pid, rc=rc)

    def ev_stray(self):
        """an acknowledgement nobody asked for, or a repeated one"""
        c = self.conn()
        if not c:
            return None
        ids = sorted(self.seen.get(c, set())) + [1, 2, 3, 77]
        return dict(e=self.rng.choice(["puback", "pubrec", "pubcomp", "pubrel"]), c=c, id=self.rng.choice(ids), rc=0)

    def ev_subscribe(self, c=None):
        r = self.rng
        c = c or self.conn()
        if not c:
            return None
        ver = self.run.con[c]["ver"]
        fs = []
        for _ in range(self.pick("nfs")):
            if self.p["shares"] and r.random() < self.p.get("p_share", 0.7):
                f = self.pick("shares").split("/")
            else:
                f = self.pick("filters").split("/")
            share = f[0] == "$share"
            fs.append(dict(f=f, q=self.pick("sq"), nl=(ver == 5 and not share and self.pick("nl")), rap=(ver == 5 and self.pick("rap")),
                           rh=self.pick("rh") if ver == 5 else 0))
            self.client(c).filters.add("/".join(f))
        x = self.client(c)
        x.lastid = x.lastid % 60000 + 1
        return dict(e="subscribe", c=c, id=x.lastid, sid=self.pick("sid") if ver == 5 else 0, fs=fs)

    def ev_unsubscribe(self, c=None):
        c = c or self.conn()
        if not c:
            return None
        x = self.client(c)
        cand = sorted(x.filters) if x.filters and self.rng.random() < 0.8 else self.p["filters"] + self.p["shares"]
        fs = [self.rng.choice(cand).split("/") for _ in range(self.pick("nfs"))]
        x.lastid = x.lastid % 60000 + 1
        return dict(e="unsubscribe", c=c, id=x.lastid, fs=fs)

    def ev_disconnect(self):
        c = self.conn()
        if not c:
            return None
        v5 = self.run.con[c]["ver"] == 5
        ev = dict(e="disconnect", c=c, rc=self.pick("drc") if v5 else 0, sei=self.pick("dsei") if v5 else -1)
        if ev["sei"] >= 0:
            x = self.client(c)
            if x.sei > 0:
                x.sei = ev["sei"]
        return ev

    def ev_close(self):
        c = self.conn()
        return dict(e="close", c=c) if c else None

    def ev_ping(self):
        c = self.conn()
        return dict(e="ping", c=c) if c else None

    def ev_bad(self, c=None):
        c = c or self.conn()
        if not c:
            return None
        ver = self.run.con[c]["ver"]
        bs = [b for b in self.p["bads"] if ver in b["vers"]]
        if not bs:
            return None
        b = self.rng.choice(bs)
        return dict(e="bad", c=c, rcs=b["rcs"], hex=b["hex"], what=b["what"])

    def ev_open(self):
        """a transport connection that says nothing, or something else than CONNECT, for a while"""
        if len(self.up) + len(self.idle) >= self.p["maxconn"] + 2:
            return None
        self.nc += 1
        l = self.pick("listeners")
        self.idle[self.nc] = self.now
        return dict(e="open", c=self.nc, ver=self.pick("vers"), l=l, lanon=self.run.srv.listeners[l].get("allow_anonymous", ""))

    def ev_prestray(self):
        if not self.idle:
            return self.ev_open()
        c = self.rng.choice(sorted(self.idle))
        v = self.run.con[c]["ver"]
        t = self.pick("topics")
        d = self.rng.choice([mqtt.publish(v, t, "bad", 0, True), mqtt.publish(v, t, "bad", 1, True, 7), mqtt.subscribe(v, 3, [("#", 1)]), mqtt.pingreq(),
                             mqtt.ack(v, "pubrel", 3), mqtt.unsubscribe(v, 4, [t])])
        self.idle[c] = self.now
        return dict(e="stray", c=c, hex=d.hex())

    def ev_late(self):
        """CONNECT on a connection that was opened before"""
        if not self.idle:
            return self.ev_open()
        c = self.rng.choice(sorted(self.idle))
        del self.idle[c]
        o = self.run.con[c]
        ev = self.ev_connect(ver=o["ver"], c=c)
        if ev:
            ev["l"] = o["l"]
            ev["lanon"] = o["lanon"]
        return ev

    def ev_badconnect(self):
        self.nc += 1
        cl = self.pick("clients") or "zz"
        b = self.rng.choice(bad.all_badconnect(cl))
        return dict(e="badconnect", c=self.nc, ver=b["ver"], hex=b["hex"], what=b["what"], l=self.pick("listeners"))

    def ev_pipeline(self):
        """several packets in one go, on one connection; often beginning with CONNECT"""
        r = self.rng
        q = []
        if r.random() < 0.5:
            ev = self.ev_connect()
            if not ev or ev["cl"] == "":
                return None
            c = ev["c"]
            self.run.con[c] = ev
            self.up[c] = ev["cl"]
            self.cl.setdefault(ev["cl"], Client())
            fresh = True
            q.append(ev)
        else:
            c = self.conn()
            if not c:
                return None
            fresh = False
        for _ in range(r.randint(2, self.p.get("pipe", 5))):
            k = self.p.get("pipeonly") or r.choices(["publish", "subscribe", "unsubscribe", "ping", "ack"], [6, 2, 0.5, 0.5, 3])[0]
            if k == "ping":
                ev = dict(e="ping", c=c)
            elif k == "ack":
                if not self.todo.get(c):
                    continue
                a, pid = self.todo[c].pop(0)
                ev = dict(e=a, c=c, id=pid, rc=0)
                if a == "pubrel":
                    self.client(c).pub2.pop(pid, None)
            else:
                ev = getattr(self, "ev_" + k)(c)
            if ev:
                q.append(ev)
        if r.random() < self.p.get("p_pipebad", 0.0):
            ev = self.ev_bad(c)
            if ev:
                q.append(ev)
                ev = self.ev_publish(c)
                if ev:
                    q.append(ev)
        if fresh:
            del self.up[c], self.run.con[c]
        return dict(e="burst", q=[q]) if q else None

    def ev_parallel(self):
        """packets of several connections at once: the broker may take them in any order, but each connection's in its own"""
        cs = sorted(self.up)
        if len(cs) < 2:
            return None
        cs = self.rng.sample(cs, 2)
        qs = []
        for c in cs:
            q = []
            for _ in range(self.rng.randint(1, 2)):
                ev = self.ev_publish(c) if self.rng.random() < 0.7 else self.ev_subscribe(c)
                if ev:
                    q.append(ev)
            if q:
                qs.append(q)
        return dict(e="burst", q=qs) if qs else None

    def ev_concur(self):
        """what several clients do at the very same time, each on a thread of its own"""
        r = self.rng
        qs = []
        fresh = []
        left = self.p.get("concur", 5)          # the orders that have to be considered multiply
        # subscribing to several filters is several steps
        nfs, self.p["nfs"] = self.p["nfs"], [1]
        old = sorted(set(self.up) - self.paused)
        r.shuffle(old)
        for _ in range(r.choice([2, 2, 3, 3, 4])):
            q = []
            n = r.choice([1, 1, 2, 2, 3])
            if left <= 0:
                break
            if r.random() < self.p.get("p_conc", 0.35) or not old:
                ev = self.ev_connect()
                if not ev or ev["cl"] == "":
                    continue
                # what a connection that is being taken over still has to say may or may not be heard
                if any(self.run.con[q1[0]["c"]]["cl"] == ev["cl"] for q1 in qs):
                    continue
                old = [o for o in old if self.up[o] != ev["cl"]]
                c = ev["c"]
                self.run.con[c] = ev
                self.up[c] = ev["cl"]
                self.cl.setdefault(ev["cl"], Client())
                fresh.append(ev)
                q.append(ev)
            else:
                c = old.pop()
            for _ in range(min(n, left)):
                k = r.choices(["publish", "subscribe", "unsubscribe", "ping", "ack", "disconnect"], self.p.get("concurw", [7, 2, 0.5, 0.3, 3, 0.5]))[0]
                if k == "ping":
                    ev = dict(e="ping", c=c)
                elif k == "disconnect":
                    ev = dict(e="disconnect", c=c, rc=r.choice([0, 0, 4]) if self.run.con[c]["ver"] == 5 else 0, sei=-1)
                elif k == "ack":
                    if not self.todo.get(c):
                        continue
                    a, pid = self.todo[c].pop(0)
                    ev = dict(e=a, c=c, id=pid, rc=0)
                    if a == "pubrel":
                        self.client(c).pub2.pop(pid, None)
                else:
                    ev = getattr(self, "ev_" + k)(c)
                if ev:
                    q.append(ev)
                if k == "disconnect":
                    break
            if q:
                left -= len(q)
                qs.append(q)
        self.p["nfs"] = nfs
        for ev in fresh:
            del self.up[ev["c"]], self.run.con[ev["c"]]
        # whether a new subscription sees a message that is being retained is tried in other ways
        return dict(e="burst", q=qs, stop=r.random() < 0.8) if qs else None

    def ev_second(self):
        c = self.conn()
        if not c:
            return None
        ev = copy.deepcopy(self.run.con[c])
        ev["cl"] = self.pick("clients") or "zz"
        return ev

    def ev_advance(self, d=None):
        d = d or self.pick("adv")
        n = self.now + d
        again = True
        while again:
            again = False
            for c in self.up:
                con = self.run.con[c]
                ka = max(con["ka"], 5) if con["ver"] == 5 else con["ka"]
                x = self.last.get(c, self.now) + ka * 3 // 2
                if ka and x < n < x + 16:
                    n = x + 16 + (x + 16) % 2
                    again = True
            for c, x in self.idle.items():
                if x + 14 <= n < x + 80:
                    n = x + 80 + x % 2
                    again = True
            for x in self.dead:
                if x <= n < x + 14 and x > self.now - 14:
                    n = x + 14 + (x + 14) % 2
                    again = True
        return dict(e="advance", d=n - self.now)

    def ev_restart(self):
        return "restart"

    def ev_probe(self):
        """to just after a moment at which something becomes due"""
        ds = [x for x in self.dead if x + 14 > self.now]
        if not ds:
            return None
        x = self.rng.choice(sorted(ds)[:3])
        return self.ev_advance(max(2, x + 14 + x % 2 - self.now))

    def watcher(self):
        """a client that sees what is published: wills that are late show up"""
        cl = self.rng.choice(self.p["clients"])
        ev = self.ev_connect(cl or None)
        if ev:
            ev["will"] = []
            self.script.insert(0, lambda: self.ev_subscribe_all(cl))
        return ev

    def ev_subscribe_all(self, cl):
        c = self.cl[cl].conn if cl in self.cl else 0
        if c not in self.up:
            return None
        ev = self.ev_subscribe(c)
        ev["fs"] = [dict(f=["#"], q=self.pick("sq"), nl=False, rap=False, rh=2 if self.run.con[c]["ver"] == 5 else 0)]
        self.client(c).filters.add("#")
        return ev

    def ev_wave(self):
        """several clients with the same will delay and expiry vanish at once; some come back, some do not; then it all becomes due"""
        r = self.rng
        cls = [cl for cl in self.p["clients"] if cl]
        r.shuffle(cls)
        cls = cls[:r.randint(2, max(2, len(cls) - 1))]
        d, sei = r.choice([6, 30, 200]), r.choice([30, 200, 2000, 2000])
        same = r.random() < 0.7
        sc = []

        def con(cl):
            def f():
                ev = self.ev_connect(cl)
                if ev:
                    ev["will"] = self.will(cl, ev["ver"])
                    if ev["ver"] == 5:
                        ev["will"][0]["delay"] = d if same or r.random() < 0.5 else self.pick("wdelay")
                        ev["sei"] = sei
                return ev
            return f
        sc += [con(cl) for cl in cls]

        def gone(cl):
            def f():
                c = self.cl[cl].conn if cl in self.cl else 0
                return dict(e="close", c=c) if c in self.up else None
            return f
        order = list(cls)
        r.shuffle(order)
        sc += [gone(cl) for cl in order]
        if r.random() < 0.5:
            sc.append(lambda: self.ev_advance(2))
        back = r.sample(cls, r.randint(0, len(cls) - 1))
        sc += [lambda cl=cl: self.ev_connect(cl) for cl in back]
        if r.random() < 0.3 and self.w.get("restart"):
            sc += [self.ev_restart]
        sc += [self.watcher, self.ev_probe]
        self.script = sc + self.script
        return None

    def ev_halfway(self):
        """something is due some time after a client left; a restart comes in between, and another look is taken right when it is due"""
        r = self.rng
        cl = r.choice([x for x in self.p["clients"] if x])
        d = r.choice([60, 200, 400])
        what = r.choice(["will", "will", "session", "message"])

        def con():
            ev = self.ev_connect(cl, ver=5)
            if ev:
                ev["sei"] = d if what == "session" else 2000
                ev["will"] = self.will(cl, 5) if what == "will" else []
                if ev["will"]:
                    ev["will"][0]["delay"] = d
                ev["clean"] = False
            return ev

        def leave():
            c = self.cl[cl].conn if cl in self.cl else 0
            return dict(e="close", c=c) if c in self.up else None

        def message():
            ev = self.ev_publish()
            if ev and self.run.con[ev["c"]]["ver"] == 5 and not ev.get("dup"):
                ev["mei"] = d
                ev["q"] = ev["q"] or 1
                if not ev["id"]:
                    x = self.client(ev["c"])
                    x.lastid = x.lastid % 60000 + 1
                    ev["id"] = x.lastid
                if ev["q"] == 2:
                    self.client(ev["c"]).pub2[ev["id"]] = [ev, False]
                self.due(d)
            return ev
        sc = [con]
        if what == "message":
            sc += [lambda: self.ev_subscribe_all(cl)]
        sc += [leave]
        if what == "message":
            sc += [message, message]
        k = r.choice([1, 1, 2])
        for _ in range(k):
            sc += [lambda: self.ev_advance(max(2, (d // (k + 1) - 16))), self.ev_restart]
        sc += [self.watcher, self.ev_probe]
        if what == "message":
            sc += [lambda: self.ev_advance(2), lambda: self.ev_connect(cl)]
        else:
            sc += [lambda: self.ev_connect(cl)]
        self.script = sc + self.script
        return None

    def lastwords(self):
        """what clients send right before the broker is told to stop"""
        if self.rng.random() >= self.p.get("p_lastwords", 0):
            return []
        qs = []
        cs = sorted(set(self.up) - self.half)
        self.rng.shuffle(cs)
        for c in cs[:self.rng.choice([1, 1, 2])]:
            q = []
            for _ in range(self.rng.randint(1, 3 if not qs else 2)):
                ev = self.ev_publish(c) if self.rng.random() < 0.8 else self.ev_subscribe(c)
                if ev:
                    q.append(ev)
            if q:
                qs.append(q)
        return qs

    def ev_half(self):
        """part of a packet, and then the broker is told to stop"""
        c = self.conn()
        if not c:
            return None
        v = self.run.con[c]["ver"]
        d = mqtt.publish(v, "t", "x" * self.rng.choice([1, 20, 300]), 1, False, 9999)
        self.half.add(c)

        def over():
            return dict(e="close", c=c) if c in self.up else None
        self.script = [self.ev_restart, over] + self.script
        return dict(e="stray", c=c, hex=d[:self.rng.randint(1, len(d) - 1)].hex())

    def ev_pause(self):
        self.paused &= set(self.up)
        cs = sorted(set(self.up) - self.paused)
        if not cs or len(self.paused) >= 2:
            return None
        c = self.rng.choice(cs)
        self.paused.add(c)
        return dict(e="pause", c=c)

    def ev_resume(self):
        if not self.paused:
            return None
        c = self.rng.choice(sorted(self.paused))
        self.paused.discard(c)
        return dict(e="resume", c=c) if c in self.up else None

    def ev_flood(self):
        """a lot at once, to those who read and those who do not"""
        c = self.conn()
        if not c:
            return None
        q = []
        old = self.p["pad"], self.p["topics"]
        self.p["pad"] = [self.rng.choice(self.p["floodpad"])]
        self.p["topics"] = [self.rng.choice(old[1])]
        for _ in range(self.rng.choice([5, 15, 30])):
            ev = self.ev_publish(c)
            # few that are queued: which copy of a message got which packet id can be impossible to tell, and the possibilities multiply
            if ev and (ev["q"] == 0 or sum(x["q"] > 0 for x in q) < 5):
                q.append(ev)
        self.p["pad"], self.p["topics"] = old
        return dict(e="burst", q=[q]) if q else None

    def ev_reload(self):
        """a new configuration, of which only valid ones may have an effect"""
        r = self.rng
        cfg, conf = dict(self.cfgnow), {}
        for f in r.sample(self.p["changes"], min(len(self.p["changes"]), r.randint(0 if r.random() < 0.1 else 1, 4))):
            a, b = f(r)
            conf.update(a)
            cfg.update(b)
        ls = None
        if r.random() < 0.4:
            ls = {n: {k: v for k, v in o.items() if k != "allow_anonymous"} for n, o in self.run.srv.listeners.items()}
            for n in ls:
                x = r.choice([None, "true", "false"])
                if x:
                    ls[n]["allow_anonymous"] = x
        junk = [list(r.choice(self.p["junk"]))] if r.random() < self.p["p_junk"] else []
        if junk and junk[0][0] is None:
            junk[0][0] = r.choice(["top", "mid", "end"])
        ev = dict(e="reload", set=conf, listeners=ls, junk=junk, valid=not junk and not self.missing, cfg=cfg)
        if ev["valid"]:
            self.mpsold = self.cfgnow["mpsin"]
            self.cfgnow = cfg
        return ev

    def ev_files(self):
        """the password or the access control file changes"""
        r = self.rng
        cfg = dict(self.cfgnow)
        files = {}
        for f in r.sample(self.p["filegen"], r.choice([1, 1, len(self.p["filegen"])])):
            files.update(f(r, cfg))
        for f, t in files.items():
            (self.missing.add if t is None else self.missing.discard)(f)
        if files.get("acl") is not None:
            self.defect = cfg["acl"] is self.cfgnow["acl"]
        ev = self.ev_advance(r.choice([3, 3, 4]))
        ev.update(e="files", files=files, cfg=cfg)
        self.cfgnow = cfg
        return ev

    def ev_huge(self):
        """a message around the size that is accepted"""
        c = self.conn()
        mps = self.rng.choice([self.cfgnow["mpsin"], self.mpsold])
        if not c or mps > 100000:
            return None
        old = self.p["pad"]
        self.p["pad"] = [max(1, mps + self.rng.choice([-60, -20, -15, -10, -6, -2, 0, 10, 3000]))]
        ev = self.ev_publish(c)
        self.p["pad"] = old
        return ev

    def ev_decide(self, c=None):
        """what the plugin makes of a login, after all"""
        r = self.rng
        if self.gone and r.random() < 0.04:
            c = r.choice(sorted(self.gone))
            if self.run.con[c]["e"] != "connect" or not (self.run.con[c]["pw"].startswith("k") or self.run.con[c].get("am")):
                return None
        elif c is None and r.random() < 0.2 and any(self.run.con[x].get("am") for x in self.up):
            c = r.choice([x for x in sorted(self.up) if self.run.con[x].get("am")])         # asked about again
        elif not self.pending:
            return None
        c = c or r.choice(sorted(self.pending))
        return dict(e="decide", c=c, v=r.choice(["ok"] * 8 + ["deny", "ldeny", "error", "unavail"] + ["cont"] * (2 if self.run.con[c].get("am") else 0)))

    def ev_defer(self):
        """a packet of a client that was not let in yet"""
        r = self.rng
        cs = [c for c in sorted(self.pending) if self.pending[c] < 20]
        if not cs:
            return None
        c = r.choice(cs)
        self.pending[c] += 1
        self.up[c] = self.run.con[c]["cl"]
        self.cl.setdefault(self.up[c], Client())
        k = r.choices(["publish", "subscribe", "unsubscribe", "ping", "disconnect", "second", "close"], [8, 4, 0.5, 1, 0.4, 0.2, 0.3])[0]
        if k == "ping" or k == "close":
            ev = dict(e=k, c=c)
        elif k == "disconnect":
            ev = dict(e=k, c=c, rc=r.choice([0, 0, 4]) if self.run.con[c]["ver"] == 5 else 0, sei=-1)
        elif k == "second":
            ev = copy.deepcopy(self.run.con[c])
        else:
            ev = getattr(self, "ev_" + k)(c)
        del self.up[c]
        if k == "close":
            self.pending.pop(c)
        return ev

    def ev_rules(self):
        """the plugin's table changes"""
        rules, t = self.p["rulegen"](self.rng)
        self.cfgnow = dict(self.cfgnow, plug=rules)
        return dict(e="reload", set={}, listeners=None, junk=[], valid=True, cfg=self.cfgnow, files={"rules": t})

    def ev_plugpub(self):
        t = self.pick("topics").split("/")
        p, n = self.payload()
        return dict(e="plugpub", t=t, tb=tbytes(t), p=p, plb=n, q=self.pick("pq"), r=self.pick("pr"))

    def ev_auth(self, c=None):
        """AUTH: what comes next in an exchange, or a new one"""
        r = self.rng
        if c is None:
            cs = [x for x in sorted(self.pending) + sorted(self.up) if self.run.con[x].get("am")]
            if r.random() < 0.03:
                cs = [x for x in sorted(self.pending) + sorted(self.up) + sorted(self.idle) if self.run.con[x]["ver"] == 5]
            if not cs:
                return None
            c = r.choice(cs)
        am = self.run.con[c].get("am", "") or "m1"
        if c in self.pending and self.run.con[c].get("am"):
            # nothing while the plugin is thinking
            if not self.turn(c):
                return self.ev_decide(c)
            rc = 24 if r.random() < 0.95 else 25
        else:
            last = next((st for st in reversed(self.run.steps) if st["ev"]["e"] in ("auth", "decide") and st["ev"]["c"] == c), None)
            if last and last["ev"]["e"] == "auth" and not last["out"]:
                return self.ev_decide(c)
            rc = 25 if self.turn(c) != 24 else 24
        if r.random() < 0.03:
            am = "m3"
        return dict(e="auth", c=c, rc=rc, am=am, xd=self.run.con[c].get("xd", "x"))

    def turn(self, c):
        """the reason code of the last AUTH, when it is the client's turn"""
        for st in reversed(self.run.steps):
            for o in st["out"]:
                if o[0] == c and o[1]["k"] == "auth":
                    return o[1]["rc"]
            if st["ev"]["e"] in ("auth", "connect") and st["ev"]["c"] == c:
                return 0
        return 0

    def decided(self):
        for _ in range(3):
            for c in sorted(self.pending):
                self.step(self.ev_decide(c))
                if c in self.pending and self.run.con[c].get("am") and self.turn(c):
                    self.step(self.ev_auth(c))
        for c in sorted(self.pending):
            self.step(dict(e="close", c=c))
            self.pending.pop(c, None)

    def ev_nop(self):
        return dict(e="nop")

    # ---------------------------------------------------------------- running
    def step(self, ev):
        if ev is None:
            return
        if self.pending and (ev == "restart" or ev["e"] in ("advance", "reload", "files")):
            self.decided()
        if ev == "restart":
            return self.restart()
        if ev["e"] in ("advance", "files"):
            self.now += ev["d"]
            self.dead = [x for x in self.dead if x > self.now - 20]
        for x in ([ev] if ev["e"] != "burst" else [y for q in ev["q"] for y in q]):
            if "c" in x:
                self.last[x["c"]] = self.now
        if self.p.get("p_cut", 0) and self.rng.random() < self.p["p_cut"]:
            ev["cut"] = self.rng.randint(1, 1 << 30)
        self.do(ev)
        if ev["e"] == "advance" and self.p.get("saveint"):
            if ev["saved"]:
                self.lastsave = self.now
                for c, cl in self.up.items():        # a crash makes that the time at which they were last seen
                    self.due(min(self.cl[cl].sei, self.cfgnow["sesexp"]))
                    for w in self.run.con[c]["will"]:
                        self.due(w["delay"])
            if ev["died"]:
                self.again(2)
        if ev["e"] == "close":
            self.lost(ev["c"])

    def restart(self):
        if self.missing or self.defect:
            return
        # nothing may become due while the broker is down
        d = 2
        late = [x for x in self.dead if self.now - 14 < x <= self.now + d + 1]
        if late:
            self.step(self.ev_advance(max(late) + 14 - self.now))
            if [x for x in self.dead if self.now - 14 < x <= self.now + d + 1]:
                return
        ev = dict(e="term", q=self.lastwords(), gap=self.rng.choice([0, 0, 50, 300, 1000]))
        if self.p.get("saveint"):
            self.fault(ev)
        self.do(ev)
        self.again(d)

    def again(self, d):
        """the broker is down"""
        self.paused = set()
        for c in list(self.up):
            self.lost(c)
        self.todo, self.seen, self.idle, self.ain = {}, {}, {}, {}
        self.now += d
        ev = dict(e="start", d=d)
        if self.p.get("saveint") and self.rng.random() < 0.2:
            ev["damage"] = [[k, self.rng.choice(["flip", "flip", "cut", "cut", "zero", "more", "gone"]), self.rng.choice([0, self.rng.random(), self.rng.random() ** 4, 0.999]),
                             self.rng.choice([1, 128, 255, self.rng.randint(1, 255)])] for k in self.rng.choice([["ret"], ["ses"], ["ret", "ses"]])]
        self.do(ev)
        self.lastsave = self.now
        if self.p.get("saveint"):
            # much of what comes from an older save may be overdue by now
            self.step(self.ev_advance(14))

    def fault(self, ev):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return
        some = r.choice([[], [], ["write"], ["rename"], ["fsync"], ["close"], ["create"], ["flush"], ["rename", "fsync", "close", "create"]])
        k = r.choice([1, 1, 2, 3, 4, r.randint(1, 8)]) if some and some != ["write"] else r.choice([1, 2, 3, r.randint(1, 20), r.randint(1, 100), r.randint(1, 300)])
        if x < 0.7:
            ev["fault"] = ["crash", some, k, 1, 0]
        elif x < 0.9:
            ev["fault"] = ["fail", some, k, r.choice([1, 1, 2, 5, 1000000]), r.choice([28, 5])]
        else:
            ev["fault"] = ["limit", [], r.choice([0, 1, 50, 96, 97, 150, 200, r.randint(1, 4000), r.randint(1, 4000)]), 0, 0]

    def ev_save(self):
        """until the broker saves its state"""
        n = self.lastsave + self.p["saveint"] - self.now
        if n > 3:
            ev = self.ev_advance(n - self.rng.choice([1, 2]))
            if self.now + ev["d"] < self.lastsave + self.p["saveint"]:
                self.step(ev)
                n = self.lastsave + self.p["saveint"] - self.now
        ev = self.ev_advance(max(n, 1))
        self.fault(ev)
        return ev

    def ev_kill(self):
        if self.missing or self.defect:
            return None
        late = [x for x in self.dead if self.now - 14 < x <= self.now + 3]
        if late:
            return self.ev_advance(max(late) + 14 - self.now)
        self.do(dict(e="kill"))
        self.again(2)
        return None

    def choose(self):
        if self.script:
            return self.script.pop(0)()
        ks = [k for k in self.w if self.w[k] > 0]
        k = self.rng.choices(ks, [self.w[k] for k in ks])[0]
        if len(self.up) < 2 and self.rng.random() < 0.7:
            k = "connect"
        return getattr(self, "ev_" + k)()

    def prologue(self):
        for cl in self.p["clients"]:
            if cl and self.rng.random() < 0.8:
                self.step(self.ev_connect(cl))
        for c in sorted(self.up):
            if self.rng.random() < 0.8:
                self.step(self.ev_subscribe(c))

    def go(self):
        try:
            self.prologue()
            for _ in range(self.p["steps"]):
                self.step(self.choose())
            while self.script and len(self.run.steps) < self.p["steps"] + 40:
                self.step(self.choose())
            self.epilogue()
        except (ServerDied, Stuck) as e:
            self.run.failure = str(e)
        finally:
            self.run.destroy()
        return self.run.record()

    def epilogue(self):
        """Let everything come out: acknowledge all, resume every session."""
        while self.paused:
            self.step(self.ev_resume())
        self.decided()
        for _ in range(200):
            ev = self.ev_ack()
            if ev is None:
                break
            self.step(ev)
        for cl in sorted(self.cl):
            if cl in self.p["clients"]:
                ev = self.ev_connect(cl)
                if ev:
                    ev["clean"] = False
                    self.step(ev)
        self.decided()
        for _ in range(200):
            ev = self.ev_ack()
            if ev is None:
                break
            self.step(ev)
