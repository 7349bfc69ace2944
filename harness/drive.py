"""Drives a real FlashMQ through random (or given) sequences of inputs, one at a time, and records for each what the broker did.
The recording is what spec/Trace.tla checks."""
import json, os, random, signal, string, time
from . import mqtt
from .server import Server, Conn, WsConn, ServerDied, Stuck, HarnessError

INF = 1000000000
PORDER = ["pfi", "ct", "rt", "cd", "up"]


# ---------------------------------------------------------------- encoding of events

def pay(p, n):
    """payload bytes: text p padded with dots to n bytes"""
    b = p.encode("latin-1")
    return b + b"." * (n - len(b))


def unpay(s):
    b = mqtt.b_(s)
    return b.rstrip(b".").decode("latin-1"), len(b)


def prlist(pr):
    return [(k, v) for k, v in json.loads(pr)] if pr else []


def prbytes(pr):
    return len(mqtt.props(prlist(pr))) - 1 if pr else 0


def prnorm(d):
    """canonical string of the properties a publish passes through"""
    l = []
    for n in PORDER:
        if n in d:
            for v in (d[n] if n == "up" else [d[n]]):
                l.append([n, v])
    return json.dumps(l, separators=(",", ":")) if l else ""


def altered(pr):
    """what a plugin makes of the properties of a message, by the name of what it does (harness/plugin.cpp)"""
    l = prlist(pr)
    d = {}
    for n, v in l:
        if n == "up":
            d.setdefault("up", []).append(v)
        else:
            d[n] = v
    r = {}
    for x in ("ct", "rt", "cd", "none", "up"):
        e = json.loads(json.dumps(d))
        if x == "ct":
            e["ct"] = "from/plugin"
        elif x == "rt":
            e["rt"] = "re/sponse"
        elif x == "cd":
            e["cd"] = "co"
        elif x == "none":
            e = {k: v for k, v in e.items() if k == "pfi"}
        elif x == "up" and "up" in e:
            e["up"].append(["added", "1"])
        s = prnorm(e)
        r[x] = [s, prbytes(s)]
    return r


def topic(t):
    return "/".join(t)


def tbytes(t):
    return len(mqtt.b_("/".join(t)))


def encode(ev, ver):
    """the bytes of an input event"""
    e = ev["e"]
    if e == "connect":
        pr = []
        if ver == 5:
            if ev.get("hassei", ev["sei"] > 0):
                pr.append(("sei", 0xFFFFFFFF if ev["sei"] >= INF else ev["sei"]))
            if ev["rm"] != 65535 or ev["badrm"]:
                pr.append(("rm", 0 if ev["badrm"] else ev["rm"]))
            if ev["tam"]:
                pr.append(("tam", ev["tam"]))
            if ev["mps"] < INF:
                pr.append(("mps", ev["mps"]))
            if ev.get("am"):
                pr += [("am", ev["am"]), ("ad", ev["xd"])]
        w = None
        if ev["will"]:
            x = ev["will"][0]
            wp = prlist(x["pr"])
            if x["delay"]:
                wp.append(("wdi", x["delay"]))
            if x["mei"] >= 0:
                wp.append(("mei", x["mei"]))
            w = dict(t=topic(x["t"]), p=pay(x["p"], x["plb"]), q=x["q"], r=x["r"], pr=wp)
        return mqtt.connect(ver, ev["cl"], ev["clean"], ev["ka"], ev["user"] if ev["hasuser"] else None, ev["pw"] if ev["hasuser"] else None, pr, w,
                            bridge=ev["bridge"])
    if e == "publish":
        pr = []
        if ver == 5:
            pr = prlist(ev["pr"])
            if ev["mei"] >= 0:
                pr.append(("mei", ev["mei"]))
            if ev["ta"]:
                pr.append(("ta", ev["ta"]))
        return mqtt.publish(ver, topic(ev["t"]), pay(ev["p"], ev["plb"]), ev["q"], ev["r"], ev["id"], ev.get("dup", False), pr)
    if e in ("puback", "pubrec", "pubrel", "pubcomp"):
        return mqtt.ack(ver, e, ev["id"], ev["rc"] if ev["rc"] else None)
    if e == "subscribe":
        fs = []
        for f in ev["fs"]:
            o = f["q"]
            if ver == 5:
                o |= (4 if f["nl"] else 0) | (8 if f["rap"] else 0) | (f["rh"] << 4)
            fs.append((topic(f["f"]), o))
        return mqtt.subscribe(ver, ev["id"], fs, [("sid", ev["sid"])] if ev["sid"] else [])
    if e == "unsubscribe":
        return mqtt.unsubscribe(ver, ev["id"], [topic(f) for f in ev["fs"]])
    if e == "ping":
        return mqtt.pingreq()
    if e == "auth":
        return mqtt.auth(ev["rc"], [("am", ev["am"]), ("ad", ev["xd"])] if ev["am"] else [])
    if e == "disconnect":
        pr = []
        if ver == 5 and ev["sei"] >= 0:
            pr = [("sei", 0xFFFFFFFF if ev["sei"] >= INF else ev["sei"])]
        return mqtt.disconnect(ver, ev["rc"] if (ver == 5 and (ev["rc"] or pr)) else None, pr or None)
    if e in ("bad", "stray"):
        return bytes.fromhex(ev["hex"])
    raise HarnessError("cannot encode " + e)


def norm(pk, ver, con):
    """a packet of the broker, as the specification sees it"""
    k = pk["k"]
    if k == "publish":
        p, n = unpay(pk["p"])
        pr = pk["pr"]
        extra = set(pr) - set(PORDER) - {"mei", "sid", "ta"}
        return dict(k=k, q=pk["q"], r=pk["r"], d=pk["d"], v=int(p) if p.isdigit() and len(p) < 9 else -1, t=pk["t"].split("/") if pk["t"] else [], p=p, plb=n,
                    pr=prnorm(pr) + ("!" + ",".join(sorted(extra)) if extra else ""), mei=min(pr.get("mei", -1), INF), sid=pr.get("sid", []),
                    ta=pr.get("ta", 0), id=pk["id"], size=pk["size"])
    if k == "connack":
        pr = pk["pr"]
        return dict(k=k, rc=pk["rc"], sp=pk["sp"], v5=ver == 5, sei=min(pr.get("sei", con.get("sei", 0)), INF), rm=pr.get("rm", 65535), mq=pr.get("mq", -1),
                    ra=pr.get("ra", 1), mps=min(pr.get("mps", INF), INF), tam=pr.get("tam", 0), wsa=pr.get("wsa", 1), sia=pr.get("sia", 1),
                    ssa=pr.get("ssa", 1), ska=pr.get("ska", con.get("ka", 0)), acid=pr.get("acid", ""),
                    am=pr.get("am", ""), ad=pr.get("ad", ""))
    if k in ("puback", "pubrec", "pubrel", "pubcomp"):
        return dict(k=k, id=pk["id"], rc=pk["rc"])
    if k in ("suback", "unsuback"):
        return dict(k=k, id=pk["id"], rcs=pk["rcs"])
    if k == "disconnect":
        return dict(k=k, rc=pk["rc"])
    if k == "pingresp":
        return dict(k=k)
    if k == "auth":
        return dict(k=k, rc=pk["rc"], am=pk["pr"].get("am", ""), ad=pk["pr"].get("ad", ""))
    return dict(k="other-" + k)


# ---------------------------------------------------------------- configuration: what the specification must know of it

CFG0 = dict(now=0, dollar=["$SYS", "$x", "$share"], mixed=["a+", "a#", "#a", "+b", "##", "++"], useacl=False, acl=[], maxbytes=65536, maxmsgs=512,
            sesexp=1209600, rmode="enabled", retmax=INF, retexp=INF, wills=True, maxqos=2, v3drop=False, aliasin=65535, aliasout=65535,
            mpsin=268435455, sids=True, anon=True, users={}, minwild=0, wilddeny="all", persist=False, wbuf=1048576, kbuf=300000, threads=1, crash=False, stats=False, plug=[])


def make_server(rc, **kw):
    """rc: run configuration {conf, cfg, listeners, storage, threads, files, extra}"""
    return Server(rc.get("conf"), listeners=rc.get("listeners"), threads=rc.get("threads", 1), storage=rc.get("storage", False),
                  extra=rc.get("extra", ""), files=rc.get("files"), env=rc.get("env"), **kw)


class Run:
    """One execution: apply(ev) performs an input on the real broker and records what it did."""

    def __init__(self, rc):
        self.rc = rc
        self.cfg = dict(CFG0, threads=rc.get("threads", 1))
        self.cfg.update(rc.get("cfg", {}))
        self.num = 0
        self.srv = make_server(rc)
        self.srv.quiesce()
        if rc.get("jitter"):
            self.srv.set("jitter", rc["jitter"])
        self.conns = {}      # number -> Conn
        self.con = {}        # number -> the connect event
        self.steps = []
        self.up = True
        self.failure = None
        self.paused = set()
        self.doing = None
        self.oppos = self.srv.fileops(0)[1] if self.srv.storage else 0

    def collect(self):
        out, closed = [], []
        self.last = []
        for c in sorted(self.conns):
            k = self.conns[c]
            if k.done or c in self.paused:
                continue
            try:
                pks = k.packets()
            except mqtt.ParseError as e:
                pks = []
                out.append([c, dict(k="unparsable", why=str(e))])
            for pk in pks:
                n = norm(pk, k.ver, self.con[c])
                out.append([c, n])
                self.last.append((c, n))
            if k.closed:
                if k.buf:
                    out.append([c, dict(k="truncated-packet")])
                closed.append(c)
                k.close()
                k.done = True
        return out, closed

    def write(self, c, data, ev=None):
        """ev["cut"]: cut the data in pieces; a piece may be followed by waiting until the broker has dealt with it"""
        cut = (ev or {}).get("cut")
        if not cut:
            self.conns[c].send(data, flush=self.drain)
            return
        rng = random.Random(cut)
        i = 0
        mode = rng.choice(["byte", "small", "two", "mixed"])
        if len(data) > 3000 and mode in ("byte", "small"):
            mode = "mixed"
        while i < len(data):
            n = {"byte": 1, "small": rng.randint(1, 4), "two": rng.randint(1, max(1, len(data) - 1)),
                 "mixed": rng.choice([1, 2, 3, 7, 16, 100, 1000, 5000])}[mode]
            self.conns[c].send(data[i:i + n], flush=self.drain)
            i += n
            r = rng.random()
            if r < (0.4 if mode != "byte" else 0.15):
                self.srv.quiesce()
            elif r < 0.7:
                time.sleep(0.0003)

    def open(self, ev):
        c = ev["c"]
        if c not in self.conns:
            self.conns[c] = self.make_conn(ev)
            self.con[c] = ev
        elif ev["e"] == "connect" and self.con[c]["e"] != "connect":
            self.con[c] = ev

    def make_conn(self, ev):
        l = ev.get("l", "main")
        lo = self.srv.listeners[l]
        at = lo["port"] if "port" in lo else self.srv.sock(l)
        return WsConn(at, ev["ver"], ev["c"]) if lo.get("protocol") == "websockets" else Conn(at, ev["ver"])

    def drain(self):
        for c, k in self.conns.items():
            if not k.closed and c not in self.paused:
                k.pump()

    def perform(self, ev):
        self.doing = ev
        e = ev["e"]
        if self.cfg["threads"] > 1:
            ev["num"] = self.num
        ver = {}
        for x in sum(ev["q"], []) if "q" in ev and isinstance(ev["q"], list) else [ev]:
            if x["e"] == "connect":
                ver[x["c"]] = x["ver"]
            if self.cfg["threads"] > 1:
                self.number(x)
            if x["e"] == "publish" and self.cfg["plug"]:
                x["apr"] = altered(x["pr"])
            if x["e"] in ("publish", "connect"):
                x["tot"] = len(encode(x, ver[x["c"]] if x["c"] in ver else self.conns[x["c"]].ver))
        if e == "connect":
            self.open(ev)
            self.write(ev["c"], encode(ev, ev["ver"]), ev)
        elif e in ("open", "badconnect"):
            self.open(ev)
            if e == "badconnect":
                self.write(ev["c"], bytes.fromhex(ev["hex"]), ev)
        elif e == "advance":
            self.faulty(ev, lambda: self.srv.advance(ev["d"]))
        elif e == "kill":
            self.srv.kill()
            self.down()
        elif e == "close":
            self.conns[ev["c"]].close()
            self.conns[ev["c"]].done = True
        elif e == "burst":
            if ev.get("stop"):
                self.srv.signal(signal.SIGSTOP)
            for q in ev["q"]:
                if not q:
                    continue
                data = b""
                for x in q:
                    if x["e"] == "connect":
                        self.open(x)
                    data += encode(x, self.conns[x["c"]].ver)
                self.write(q[0]["c"], data, ev)
            if ev.get("stop"):
                self.srv.signal(signal.SIGCONT)
        elif e == "term":
            for q in ev["q"]:
                self.write(q[0]["c"], b"".join(encode(x, self.conns[x["c"]].ver) for x in q), ev)
            if ev["gap"]:
                time.sleep(ev["gap"] / 1e6)
            self.faulty(ev, self.stop)
            self.down()
        elif e == "start":
            self.srv.sleep(ev["d"])
            lost = sorted({x[0] for x in ev.get("damage", []) if self.damage(*x)})
            if "damage" in ev:
                ev["lost"] = lost
            for i in range(len(lost) + 1):
                try:
                    self.srv.boot()
                    break
                except ServerDied:
                    if i == len(lost):
                        raise
            self.srv.quiesce()
            ev["ops"], self.oppos = self.srv.fileops(self.oppos) if self.srv.storage else ([], 0)
            self.up = True
            self.conns, self.paused = {}, set()
        elif e == "pause":
            self.paused.add(ev["c"])
        elif e == "resume":
            self.paused.discard(ev["c"])
        elif e == "files":
            for n, t in ev["files"].items():
                self.srv.write_file(n, t)
            self.srv.advance(ev["d"])
        elif e == "reload":
            for n, t in ev.get("files", {}).items():
                self.srv.write_file(n, t)
            self.srv.reload(dict(self.srv.conf, **ev["set"]), ev["listeners"] or self.srv.listeners, ev["junk"], ev["valid"])
        elif e == "nop":
            pass
        elif e == "decide":
            con = self.con[ev["c"]]
            self.command("decide %s %s %s" % (con["xd"] if con.get("am") else con["pw"], ev["v"], con.get("am", "")))
        elif e == "plugpub":
            self.command("pub %s %d %d %s" % (topic(ev["t"]), ev["q"], ev["r"], pay(ev["p"], ev["plb"]).decode("latin-1")))
        elif e == "bulk":
            self.bulk(ev)
        else:
            self.write(ev["c"], encode(ev, self.conns[ev["c"]].ver), ev)

    def command(self, s):
        """something for the plugin to do"""
        fd = os.open(self.srv.path("fifo"), os.O_WRONLY | os.O_NONBLOCK)
        os.write(fd, (s + "\n").encode())
        os.close(fd)

    def down(self):
        self.up = False
        self.paused = set()

    def stop(self):
        self.srv.signal(signal.SIGTERM)
        rc = self.srv.wait_exit(120)
        if rc is None:
            raise ServerDied("server does not exit: " + self.srv.tail())
        if rc != 0:
            raise ServerDied("exit status %s: %s" % (rc, self.srv.tail()))

    def faulty(self, ev, f):
        """f, in which file operations may fail or be the last thing the broker does"""
        fault = ev.get("fault")
        if fault:
            self.srv.arm(fault)
        ev["died"] = False
        try:
            f()
        except ServerDied:
            if not fault or fault[0] != "crash" or self.srv.proc.poll() != -signal.SIGKILL:
                raise
            ev["died"] = True
            self.down()
        finally:
            if fault:
                self.srv.disarm()
        ops, self.oppos = self.srv.fileops(self.oppos) if self.srv.storage else ([], 0)
        limit = bool(fault and fault[0] == "limit")       # that goes for the log of the operations as well
        ev["saved"] = limit or any(o[1].startswith(("retained", "sessions")) for o in ops)
        ev["ops"] = [] if limit else ops

    def damage(self, kind, how, at, x):
        """at: where, as a fraction. Was anything damaged?"""
        p = os.path.join(self.srv.storage, {"ret": "retained.db", "ses": "sessions.db"}[kind])
        if not os.path.exists(p):
            return False
        with open(p, "rb") as f:
            d = bytearray(f.read())
        old = bytes(d)
        if how == "flip":
            i = min(len(d) - 1, 32 + int(at * (len(d) - 32)))
            d[i] ^= x
        elif how == "cut":
            d = d[:int(at * len(d))]
        elif how == "more":
            d += bytes([x]) * (1 + int(at * 50))
        elif how == "zero":
            i = 32 + int(at * (len(d) - 32))
            d[i:] = bytes(len(d) - i)
        elif how == "gone":
            os.unlink(p)
            return True
        if bytes(d) == old:
            return False
        with open(p, "wb") as f:
            f.write(d)
        return True

    def number(self, x):
        """messages in the order of their making"""
        if x["e"] == "publish" or x["e"] == "connect" and x["will"]:
            self.num += 1
            (x if x["e"] == "publish" else x["will"][0])["num"] = self.num

    def bulk(self, ev):
        """Very many messages from connection c to connection s, acknowledged as they come. Records what s saw: the packet ids, as ranges of consecutive
        ones, and whether the payloads came in order."""
        c, s, q, n = self.conns[ev["c"]], self.conns[ev["s"]], ev["q"], ev["n"]
        ids, sent, got, acked, inorder, k, extra = [], 0, 0, 0, True, 0, []
        idle = 0
        while (got < n or acked < n) and idle < 3:
            d = b""
            while sent < n and len(d) < 100 * 30 and sent - min(got, acked) < 100:
                d += mqtt.publish(c.ver, "/".join(ev["t"]), "k%d" % sent, q, False, 60001 + sent % 5000)
                sent += 1
            c.send(d, flush=self.drain)
            self.settle()
            a0 = got + acked
            d = b""
            for p in c.packets():
                if p["k"] in ("puback", "pubcomp") and p["id"] > 60000:
                    acked += 1
                elif p["k"] == "pubrec" and p["id"] > 60000:
                    d += mqtt.ack(c.ver, "pubrel", p["id"])
                else:
                    extra.append([ev["c"], p])
            if d:
                c.send(d, flush=self.drain)
            d = b""
            for p in s.packets():
                if p["k"] == "publish" and p["p"].startswith("k") and p["q"] == q and not p["d"] and not p["r"]:
                    inorder = inorder and p["p"] == "k%d" % k
                    k += 1
                    i = p["id"]
                    if ids and ids[-1][1] + 1 == i and i - ids[-1][0] < 60000:
                        ids[-1][1] = i
                    else:
                        ids.append([i, i])
                    if q == 1:
                        got += 1
                    d += mqtt.ack(s.ver, "puback" if q == 1 else "pubrec", i)
                elif p["k"] == "pubrel" and q == 2:
                    got += 1
                    d += mqtt.ack(s.ver, "pubcomp", p["id"])
                else:
                    extra.append([ev["s"], p])
            if d:
                s.send(d, flush=self.drain)
            idle = idle + 1 if got + acked == a0 and not d else 0
        self.settle()
        ev.update(ids=ids, got=got, acked=acked, inorder=inorder)
        self.extra = [[c, norm(p, self.conns[c].ver, self.con[c])] for c, p in extra]

    def settle(self):
        """Wait for quiescence; a client that reads slowly makes more room, so go on until nothing comes any more."""
        while True:
            if self.up:
                self.srv.quiesce()
            n = 0
            for c, k in self.conns.items():
                if not k.closed and c not in self.paused:
                    n += k.pump()
            if n < 256 or not self.up:     # fewer bytes cannot have filled the buffer of a socket, however small the packets
                return

    def apply(self, ev):
        self.perform(ev)
        self.settle()
        out, closed = self.collect()
        if ev["e"] == "bulk":
            out = self.extra + out
        for x in [ev] if ev["e"] == "connect" else sum(ev.get("q", []), []) if ev["e"] == "burst" else []:
            if x["e"] == "connect" and x["cl"] == "" and not x["gen"]:
                for c, p in self.last:
                    if c == x["c"] and p["k"] == "connack" and p["rc"] == 0:
                        x["gen"] = p["acid"] or "?%d" % c
        self.steps.append(dict(ev=ev, out=out, closed=closed))
        return out, closed

    def record(self):
        """the specification cannot look inside strings, so it is told which levels begin with '$' and which contain a wildcard among others"""
        lv = set()

        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("t", "f") and isinstance(v, list):
                        lv.update(v)
                    elif k == "fs":
                        for f in v:
                            lv.update(f if isinstance(f, list) else f["f"])
                    elif isinstance(v, (list, dict)):
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(self.steps)
        cfg = dict(self.cfg, dollar=sorted(set(self.cfg["dollar"]) | {x for x in lv if x.startswith("$")}),
                   mixed=sorted({x for x in lv if len(x) > 1 and ("#" in x or "+" in x)}))
        for st in self.steps:
            if isinstance(st["ev"].get("cfg"), dict):
                st["ev"]["cfg"].update(dollar=cfg["dollar"], mixed=cfg["mixed"])
        return dict(module="Trace", driver="gen", cfg=cfg, steps=self.steps, rc=self.rc, failure=self.failure, doing=self.doing if self.failure else None)

    def replay(self, steps):
        """the same inputs again"""
        try:
            for s in steps:
                ev = json.loads(json.dumps(s["ev"]))
                for x in [ev] if ev["e"] != "burst" else sum(ev["q"], []):
                    if x["e"] == "connect" and x["cl"] == "":
                        x["gen"] = ""
                self.apply(ev)
        except (ServerDied, Stuck) as e:
            self.failure = str(e)
        finally:
            self.destroy()
        return self.record()

    def destroy(self):
        for k in self.conns.values():
            k.close()
        self.srv.destroy()
