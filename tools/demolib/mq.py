"""A raw MQTT 3.1 / 3.1.1 / 5.0 codec: encodes any packet (also wrong ones) and decodes server packets to plain dicts."""
import struct

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
NAMES = {1: "connect", 2: "connack", 3: "publish", 4: "puback", 5: "pubrec", 6: "pubrel", 7: "pubcomp", 8: "subscribe", 9: "suback",
         10: "unsubscribe", 11: "unsuback", 12: "pingreq", 13: "pingresp", 14: "disconnect", 15: "auth"}

# property id -> (name, type); types: b byte, h u16, i u32, v varint, s string, d binary, p string pair
PROPS = {0x01: ("pfi", "b"), 0x02: ("mei", "i"), 0x03: ("ct", "s"), 0x08: ("rt", "s"), 0x09: ("cd", "d"), 0x0B: ("sid", "v"),
         0x11: ("sei", "i"), 0x12: ("acid", "s"), 0x13: ("ska", "h"), 0x15: ("am", "s"), 0x16: ("ad", "d"), 0x17: ("rpi", "b"),
         0x18: ("wdi", "i"), 0x19: ("rri", "b"), 0x1A: ("ri", "s"), 0x1C: ("sr", "s"), 0x1F: ("rs", "s"), 0x21: ("rm", "h"),
         0x22: ("tam", "h"), 0x23: ("ta", "h"), 0x24: ("mq", "b"), 0x25: ("ra", "b"), 0x26: ("up", "p"), 0x27: ("mps", "i"),
         0x28: ("wsa", "b"), 0x29: ("sia", "b"), 0x2A: ("ssa", "b")}
PIDS = {n: (i, t) for i, (n, t) in PROPS.items()}


class ParseError(Exception):
    pass


def varint(n):
    out = bytearray()
    while True:
        b = n % 128
        n //= 128
        out.append(b | (0x80 if n else 0))
        if not n:
            return bytes(out)


def b_(s):
    return s if isinstance(s, (bytes, bytearray)) else s.encode("utf-8", "surrogateescape")


def s_(b):
    return bytes(b).decode("utf-8", "surrogateescape")


def mstr(s):
    b = b_(s)
    return struct.pack(">H", len(b)) + b


def props(d):
    """d: list of (name, value) or dict."""
    items = d.items() if isinstance(d, dict) else d
    out = bytearray()
    for n, v in items:
        i, t = PIDS[n]
        vs = v if isinstance(v, list) and (n == "sid" or n == "up" and v and isinstance(v[0], (list, tuple))) else [v]
        for x in vs:
            out.append(i)
            if t == "b":
                out.append(x)
            elif t == "h":
                out += struct.pack(">H", x)
            elif t == "i":
                out += struct.pack(">I", x)
            elif t == "v":
                out += varint(x)
            elif t in "sd":
                out += mstr(x)
            elif t == "p":
                out += mstr(x[0]) + mstr(x[1])
    return varint(len(out)) + bytes(out)


def packet(first, body):
    return bytes([first]) + varint(len(body)) + bytes(body)


def connect(ver=5, cid="", clean=True, ka=0, user=None, pw=None, pr=(), will=None, bridge=False, name=None, flags_xor=0):
    name = name if name is not None else ("MQIsdp" if ver == 3 else "MQTT")
    fl = 0
    if clean:
        fl |= 2
    if will:
        fl |= 4 | (will.get("q", 0) << 3) | (0x20 if will.get("r") else 0)
    if user is not None:
        fl |= 0x80
    if pw is not None:
        fl |= 0x40
    body = mstr(name) + bytes([ver | (0x80 if bridge else 0), fl ^ flags_xor]) + struct.pack(">H", ka)
    if ver == 5:
        body += props(pr)
    body += mstr(cid)
    if will:
        if ver == 5:
            body += props(will.get("pr", ()))
        body += mstr(will["t"]) + mstr(will.get("p", b""))
    if user is not None:
        body += mstr(user)
    if pw is not None:
        body += mstr(pw)
    return packet(0x10, body)


def publish(ver, topic, payload=b"", q=0, r=False, pid=0, dup=False, pr=()):
    body = mstr(topic)
    if q:
        body += struct.pack(">H", pid)
    if ver == 5:
        body += props(pr)
    body += b_(payload)
    return packet(0x30 | (8 if dup else 0) | (q << 1) | (1 if r else 0), body)


def ack(ver, kind, pid, rc=None, pr=None):
    t = {"puback": 4, "pubrec": 5, "pubrel": 6, "pubcomp": 7}[kind]
    body = struct.pack(">H", pid)
    if ver == 5 and rc is not None:
        body += bytes([rc])
        if pr is not None:
            body += props(pr)
    return packet((t << 4) | (2 if t == 6 else 0), body)


def subscribe(ver, pid, fs, pr=()):
    """fs: list of (filter, options byte)"""
    body = struct.pack(">H", pid)
    if ver == 5:
        body += props(pr)
    for f, o in fs:
        body += mstr(f) + bytes([o])
    return packet(0x82, body)


def unsubscribe(ver, pid, fs, pr=()):
    body = struct.pack(">H", pid)
    if ver == 5:
        body += props(pr)
    for f in fs:
        body += mstr(f)
    return packet(0xA2, body)


def pingreq():
    return b"\xc0\x00"


def disconnect(ver, rc=None, pr=None):
    body = b""
    if ver == 5 and (rc is not None or pr is not None):
        body = bytes([rc or 0])
        if pr is not None:
            body += props(pr)
    return packet(0xE0, body)


def auth(rc=0x18, pr=()):
    return packet(0xF0, bytes([rc]) + props(pr))


class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0

    def left(self):
        return len(self.b) - self.p

    def take(self, n):
        if self.left() < n:
            raise ParseError("short packet")
        x = self.b[self.p:self.p + n]
        self.p += n
        return x

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return struct.unpack(">H", self.take(2))[0]

    def u32(self):
        return struct.unpack(">I", self.take(4))[0]

    def vi(self):
        v, m = 0, 1
        for _ in range(4):
            x = self.u8()
            v += (x & 127) * m
            if not x & 128:
                return v
            m *= 128
        raise ParseError("varint")

    def s(self):
        return s_(self.take(self.u16()))

    def props(self):
        n = self.vi()
        end = self.p + n
        if end > len(self.b):
            raise ParseError("property length")
        d = {}
        while self.p < end:
            i = self.u8()
            if i not in PROPS:
                raise ParseError("property id %d" % i)
            name, t = PROPS[i]
            v = {"b": self.u8, "h": self.u16, "i": self.u32, "v": self.vi, "s": self.s, "d": self.s, "p": None}[t]
            v = [self.s(), self.s()] if t == "p" else v()
            if name in ("up", "sid"):
                d.setdefault(name, []).append(v)
            else:
                if name in d:
                    raise ParseError("duplicate property " + name)
                d[name] = v
        if self.p != end:
            raise ParseError("property overrun")
        return d


def decode(ver, first, body):
    """Decode a packet sent by the server."""
    t = first >> 4
    fl = first & 15
    r = Rd(body)
    k = NAMES.get(t)
    if k is None:
        raise ParseError("type %d" % t)
    d = {"k": k}
    if t != PUBLISH and fl != (2 if t in (PUBREL, SUBSCRIBE, UNSUBSCRIBE) else 0):
        raise ParseError("flags of %s: %d" % (k, fl))
    if t == CONNACK:
        f = r.u8()
        if f & 0xFE:
            raise ParseError("connack flags")
        d["sp"] = f & 1
        d["rc"] = r.u8()
        d["pr"] = r.props() if ver == 5 else {}
    elif t == PUBLISH:
        d["q"], d["r"], d["d"] = (fl >> 1) & 3, fl & 1, fl >> 3
        if d["q"] == 3:
            raise ParseError("qos 3")
        d["t"] = r.s()
        d["id"] = r.u16() if d["q"] else 0
        d["pr"] = r.props() if ver == 5 else {}
        d["p"] = s_(r.take(r.left()))
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        d["id"] = r.u16()
        d["rc"] = 0
        d["pr"] = {}
        if ver == 5 and r.left():
            d["rc"] = r.u8()
            if r.left():
                d["pr"] = r.props()
    elif t in (SUBACK, UNSUBACK):
        d["id"] = r.u16()
        d["pr"] = r.props() if ver == 5 else {}
        d["rcs"] = list(r.take(r.left()))
    elif t == PINGRESP:
        pass
    elif t == DISCONNECT:
        if ver != 5:
            raise ParseError("disconnect to mqtt3")
        d["rc"] = r.u8() if r.left() else 0
        d["pr"] = r.props() if r.left() else {}
    elif t == AUTH:
        d["rc"] = r.u8() if r.left() else 0
        d["pr"] = r.props() if r.left() else {}
    else:
        # packets only clients send; seen when we play the remote end of a bridge
        if t == CONNECT:
            d["name"] = r.s()
            v = r.u8()
            d["bridge"], d["ver"] = v >> 7, v & 127
            f = r.u8()
            d["clean"] = (f >> 1) & 1
            d["ka"] = r.u16()
            d["pr"] = r.props() if d["ver"] == 5 else {}
            d["cid"] = r.s()
            d["user"] = r.s() if f & 0x80 else None
            d["pw"] = r.s() if f & 0x40 else None
        elif t == SUBSCRIBE:
            d["id"] = r.u16()
            d["pr"] = r.props() if ver == 5 else {}
            d["fs"] = []
            while r.left():
                f = r.s()
                d["fs"].append([f, r.u8()])
        elif t == UNSUBSCRIBE:
            d["id"] = r.u16()
            d["pr"] = r.props() if ver == 5 else {}
            d["fs"] = []
            while r.left():
                d["fs"].append(r.s())
    if r.left():
        raise ParseError("trailing bytes in " + k)
    return d


def split(buf):
    """Split complete frames off buf (bytearray); returns [(first, body, size)], leaves the rest in buf."""
    out = []
    while True:
        if len(buf) < 2:
            return out
        n, m, i = 0, 1, 1
        ok = False
        while i < len(buf) and i < 5:
            n += (buf[i] & 127) * m
            m *= 128
            i += 1
            if not buf[i - 1] & 128:
                ok = True
                break
        if not ok:
            if i >= 5:
                raise ParseError("remaining length")
            return out
        if len(buf) < i + n:
            return out
        out.append((buf[0], bytes(buf[i:i + n]), i + n))
        del buf[:i + n]
