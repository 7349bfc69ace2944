"""Packets that break the protocol. Each: what, in which versions, bytes, acceptable reason codes (MQTT 5)."""
import struct
from . import mqtt
from .mqtt import packet, mstr, props, varint

ANY = [129, 130, 131, 143, 144, 147, 148, 149, 153, 155, 158, 161, 162, 128, 140]


def pub(ver, topic, flags=0x30, pid=None, pr=b"\0", payload=b"x"):
    return packet(flags, mstr(topic) + (struct.pack(">H", pid) if pid is not None else b"") + (pr if ver == 5 else b"") + payload)


def sub(ver, fs, first=0x82, pid=9, pr=b"\0"):
    return packet(first, struct.pack(">H", pid) + (pr if ver == 5 else b"") + b"".join(mstr(f) + bytes([o]) for f, o in fs))


def unsub(ver, fs, first=0xA2, pid=9, pr=b"\0"):
    return packet(first, struct.pack(">H", pid) + (pr if ver == 5 else b"") + b"".join(mstr(f) for f in fs))


def raw(*ps):
    b = b"".join(ps)
    return varint(len(b)) + b


def all_bad():
    out = []

    def add(what, vers, f):
        for v in vers:
            out.append(dict(what=what, vers=[v], hex=f(v).hex(), rcs=ANY))
    V, V3 = (3, 4, 5), (3, 4)
    add("publish qos 3", V, lambda v: pub(v, "t", 0x36, 5))
    add("publish qos 1 id 0", V, lambda v: pub(v, "t", 0x32, 0))
    add("publish qos 2 id 0", V, lambda v: pub(v, "t", 0x34, 0))
    add("publish retain, empty topic", V, lambda v: pub(v, "", 0x31))
    add("publish empty topic", V, lambda v: pub(v, ""))
    for t in ("t/+", "#", "t/#", "+"):
        add("publish topic " + t, V, lambda v, t=t: pub(v, t, 0x31))
    for n, t in (("nul", b"t\0u"), ("bad utf8", b"t\xff"), ("overlong", b"t\xc0\xaf"), ("surrogate", b"t\xed\xa0\x80"), ("cut utf8", b"t\xe2\x82"),
                 ("too large code point", b"\xf5\x80\x80\x80"), ("lone continuation", b"\x80t")):
        add("publish topic " + n, V, lambda v, t=t: pub(v, t, 0x31))
        add("subscribe filter " + n, V, lambda v, t=t: sub(v, [("t", 1), (t, 1)]))
    for n, t in (("control before multibyte", b"ab\x01\xc3\xa9"), ("nul before multibyte", b"\0\xc3\xa9"), ("control", b"a\x1f"), ("del", b"a\x7f"),
                 ("control after multibyte", b"\xc3\xa9\x02"), ("C1 control", b"\xc2\x85"), ("non-character", b"\xef\xbf\xbf"),
                 ("code point 110000", b"\xf4\x90\x80\x80")):
        add("publish topic " + n, V, lambda v, t=t: pub(v, t, 0x31))
        add("subscribe filter " + n, V, lambda v, t=t: sub(v, [("t", 1), (t, 1)]))
    add("publish topic longer than packet", V, lambda v: packet(0x31, b"\0\x20t"))
    add("publish without topic", V, lambda v: packet(0x31, b""))
    add("publish qos 1 without id", V, lambda v: packet(0x33, mstr("t")))
    P = 5,
    add("publish property length beyond packet", P, lambda v: pub(v, "t", 0x31, None, b"\x20", b""))
    add("publish unknown property", P, lambda v: pub(v, "t", 0x31, None, raw(b"\x7f\0")))
    add("publish property of connect", P, lambda v: pub(v, "t", 0x31, None, props([("sei", 5)])))
    add("publish property of connack", P, lambda v: pub(v, "t", 0x31, None, props([("ska", 5)])))
    for n, x in (("pfi", 1), ("mei", 7), ("ct", "a"), ("rt", "a"), ("cd", "a"), ("ta", 1)):
        add("publish twice " + n, P, lambda v, n=n, x=x: pub(v, "t", 0x31, None, props([(n, x), (n, x)])))
    add("publish with subscription id", P, lambda v: pub(v, "t", 0x31, None, props([("sid", 3)])))
    add("publish alias 0", P, lambda v: pub(v, "t", 0x31, None, props([("ta", 0)])))
    add("publish alias unknown", P, lambda v: pub(v, "", 0x31, None, props([("ta", 60000)])))
    add("publish response topic wildcard", P, lambda v: pub(v, "t", 0x31, None, props([("rt", "a/#")])))
    add("publish user property cut", P, lambda v: pub(v, "t", 0x31, None, raw(b"\x26\0\1a\0\5b")))
    add("publish property value cut", P, lambda v: pub(v, "t", 0x31, None, raw(b"\x02\0\0"), b""))
    add("subscribe flags 0", V, lambda v: sub(v, [("t", 1)], 0x80))
    add("subscribe flags f", V, lambda v: sub(v, [("t", 1)], 0x8f))
    add("subscribe id 0", V, lambda v: sub(v, [("t", 1)], pid=0))
    add("subscribe no filter", V, lambda v: sub(v, []))
    add("subscribe empty filter", V, lambda v: sub(v, [("", 1)]))
    for f in ("a#", "#/a", "a+", "+a", "a/#/b", "a/b#", "$share//a"):
        add("subscribe filter " + f, V, lambda v, f=f: sub(v, [("t", 1), (f, 1)]))
    add("subscribe share without filter", V, lambda v: sub(v, [("$share/g/", 1)]))
    add("subscribe share with wildcard", V, lambda v: sub(v, [("$share/+/a", 1)]))
    add("subscribe qos 3", V, lambda v: sub(v, [("t", 3)]))
    add("subscribe reserved bits", V, lambda v: sub(v, [("t", 0xC1)]))
    add("subscribe v3 option bits", V3, lambda v: sub(v, [("t", 0x05)]))
    add("subscribe retain handling 3", P, lambda v: sub(v, [("t", 0x31)]))
    add("subscribe share no local", P, lambda v: sub(v, [("$share/g/t", 5)]))
    add("subscribe id property 0", P, lambda v: sub(v, [("t", 1)], pr=props([("sid", 0)])))
    add("subscribe id property twice", P, lambda v: sub(v, [("t", 1)], pr=props([("sid", [1, 2])])))
    add("subscribe wrong property", P, lambda v: sub(v, [("t", 1)], pr=props([("mei", 1)])))
    add("subscribe without options", V, lambda v: packet(0x82, b"\0\x09" + (b"\0" if v == 5 else b"") + mstr("t")))
    add("subscribe filter longer than packet", V, lambda v: packet(0x82, b"\0\x09" + (b"\0" if v == 5 else b"") + mstr("t") + b"\1\0\x40u"))
    add("unsubscribe flags 0", V, lambda v: unsub(v, ["t"], 0xA0))
    add("unsubscribe id 0", V, lambda v: unsub(v, ["t"], pid=0))
    add("unsubscribe no filter", V, lambda v: unsub(v, []))
    add("unsubscribe empty filter", V, lambda v: unsub(v, [""]))
    add("unsubscribe cut", V, lambda v: packet(0xA2, b"\0\x09" + (b"\0" if v == 5 else b"") + b"\0\x40u"))
    add("pubrel flags 0", V, lambda v: packet(0x60, b"\0\1"))
    add("puback flags", V, lambda v: packet(0x42, b"\0\1"))
    add("pubrec flags", V, lambda v: packet(0x52, b"\0\1"))
    add("pubcomp flags", V, lambda v: packet(0x72, b"\0\1"))
    add("puback empty", V, lambda v: packet(0x40, b""))
    add("puback cut", V, lambda v: packet(0x40, b"\1"))
    add("pingreq flags", V, lambda v: packet(0xC1, b""))
    add("disconnect flags", V, lambda v: packet(0xE1, b""))
    add("disconnect property twice", P, lambda v: packet(0xE0, b"\0" + props([("sei", 5), ("sei", 5)])))
    add("disconnect wrong property", P, lambda v: packet(0xE0, b"\0" + props([("mei", 5)])))
    add("type 0", V, lambda v: packet(0x00, b""))
    add("auth", V, lambda v: mqtt.auth())
    add("length of five bytes", V, lambda v: b"\x30\xff\xff\xff\xff\x01")
    return out


def all_badconnect(cid):
    """CONNECT packets that break the protocol (for a given client id)."""
    out = []

    def mk(ver, name=None, verbyte=None, flags=2, ka=0, pr=b"\0", cidb=None, rest=b""):
        name = name if name is not None else ("MQIsdp" if ver == 3 else "MQTT")
        return packet(0x10, mstr(name) + bytes([ver if verbyte is None else verbyte, flags]) + struct.pack(">H", ka) + (pr if ver == 5 else b"")
                      + (mstr(cid) if cidb is None else cidb) + rest)

    def add(what, vers, f):
        for v in vers:
            out.append(dict(what=what, ver=v, hex=f(v).hex()))
    V, V3, P = (3, 4, 5), (3, 4), (5,)
    W = lambda v: (b"\0" if v == 5 else b"")
    add("name", V, lambda v: mk(v, "MQTX"))
    add("name empty", V, lambda v: mk(v, ""))
    out.append(dict(what="version 6", ver=5, hex=mk(4, verbyte=6).hex()))
    add("version 0", (4,), lambda v: mk(v, verbyte=0))
    add("name of the other version", (3,), lambda v: mk(v, "MQTT"))
    add("name of the other version", (4, 5), lambda v: mk(v, "MQIsdp"))
    add("reserved flag", V, lambda v: mk(v, flags=3))
    add("will qos 3", V, lambda v: mk(v, flags=2 | 4 | 0x18, rest=W(v) + mstr("w/x") + mstr("p")))
    add("will qos without will", V, lambda v: mk(v, flags=2 | 8))
    add("will retain without will", V, lambda v: mk(v, flags=2 | 0x20))
    add("will topic wildcard", V, lambda v: mk(v, flags=6, rest=W(v) + mstr("w/#") + mstr("p")))
    add("will topic bad utf8", V, lambda v: mk(v, flags=6, rest=W(v) + mstr(b"w\xff") + mstr("p")))
    add("will payload cut", V, lambda v: mk(v, flags=6, rest=W(v) + mstr("w/x") + b"\0\x20p"))
    add("will absent", V, lambda v: mk(v, flags=6))
    add("password without user", V3, lambda v: mk(v, flags=0x42, rest=mstr("pw")))
    add("user absent", V, lambda v: mk(v, flags=0x82))
    add("password absent", V, lambda v: mk(v, flags=0xC2, rest=mstr("u")))
    add("user bad utf8", V, lambda v: mk(v, flags=0xC2, rest=mstr(b"u\xff") + mstr("p")))
    add("client id bad utf8", V, lambda v: mk(v, cidb=mstr(b"c\xff")))
    add("client id wildcard", V, lambda v: mk(v, cidb=mstr("c#")))
    add("client id plus", V, lambda v: mk(v, cidb=mstr("+" + cid)))
    for u in ("", "+", "#", "u1#", "+u1", "u\0"):
        add("user name '%s'" % u, V, lambda v: mk(v, flags=0xC2, rest=mstr(u) + mstr("p")))
    add("client id cut", V, lambda v: mk(v, cidb=b"\0\x40c"))
    add("no client id", V, lambda v: mk(v, cidb=b""))
    add("flags of fixed header", V, lambda v: b"\x11" + mk(v)[1:])
    add("property twice sei", P, lambda v: mk(v, pr=props([("sei", 5), ("sei", 6)])))
    add("property twice rm", P, lambda v: mk(v, pr=props([("rm", 5), ("rm", 6)])))
    add("property twice mps", P, lambda v: mk(v, pr=props([("mps", 500), ("mps", 600)])))
    add("property twice tam", P, lambda v: mk(v, pr=props([("tam", 5), ("tam", 6)])))
    add("receive maximum 0", P, lambda v: mk(v, pr=props([("rm", 0)])))
    add("packet size 0", P, lambda v: mk(v, pr=props([("mps", 0)])))
    add("property of publish", P, lambda v: mk(v, pr=props([("mei", 5)])))
    add("unknown property", P, lambda v: mk(v, pr=raw(b"\x7f\0")))
    add("properties cut", P, lambda v: mk(v, pr=b"\x40"))
    add("request problem information 2", P, lambda v: mk(v, pr=props([("rpi", 2)])))
    add("request response information 2", P, lambda v: mk(v, pr=props([("rri", 2)])))
    add("auth data without method", P, lambda v: mk(v, pr=props([("ad", "x")])))
    add("will property twice", P, lambda v: mk(v, flags=6, rest=props([("wdi", 1), ("wdi", 2)]) + mstr("w/x") + mstr("p")))
    add("will property of connect", P, lambda v: mk(v, flags=6, rest=props([("sei", 1)]) + mstr("w/x") + mstr("p")))
    return out
