"""What to try for each property: functions of a random generator that give (run configuration, generator profile)."""
import base64, copy, hashlib, os
from . import bad
from .build import B
from .drive import INF

BADS = bad.all_bad()


def pwline(u, pw, rng):
    salt = bytes(rng.randrange(256) for _ in range(12))
    b = lambda x: base64.b64encode(x).decode()
    if rng.random() < 0.5:
        h = hashlib.sha512(pw.encode() + salt).digest()
        return "%s:$6$%s$%s\n" % (u, b(salt), b(h))
    h = hashlib.pbkdf2_hmac("sha512", pw.encode(), salt, 101, 64)
    return "%s:$7$101$%s$%s\n" % (u, b(salt), b(h))


def acl_file(rules, rng):
    """rules as the specification has them; consecutive rules of one user go in one section"""
    anon = [r for r in rules if r["kind"] == "anon"]
    t = ""
    for r in anon:
        t += "topic %s%s\n" % ("" if r["acc"] == "readwrite" and rng.random() < 0.5 else r["acc"] + " ", "/".join(r["f"]))
    for r in rules:
        if r["kind"] == "pattern":
            t += "pattern %s%s\n" % ("" if r["acc"] == "readwrite" and rng.random() < 0.5 else r["acc"] + " ", "/".join(r["f"]))
    for u in sorted({r["user"] for r in rules if r["kind"] == "user"}):
        t += "user %s\n" % u
        for r in rules:
            if r["kind"] == "user" and r["user"] == u:
                t += "topic %s%s\n" % ("" if r["acc"] == "readwrite" and rng.random() < 0.5 else r["acc"] + " ", "/".join(r["f"]))
    return t


def weights(**kw):
    return kw


def some(rng, **opts):
    """each option with probability one half"""
    return {k: v for k, v in opts.items() if rng.random() < 0.5}


# ------------------------------------------------------------------------------------------------ topics and filters
LEVELS = ["", "a", "b", "ab", "c d", "\u00e9", "x" * 15, "x" * 16, "y" * 17, "z" * 33, "A", "a1", "longer level"]


def rnd_topic(rng, levels, depth):
    n = rng.choice(depth)
    t = [rng.choice(levels) for _ in range(n)]
    if t == [""]:
        t = ["a"]
    if rng.random() < 0.08:
        t[0] = rng.choice(["$x", "$SYSx", "$"])
    return "/".join(t)


def rnd_filter(rng, topics, levels):
    f = rng.choice(topics).split("/")
    r = rng.random()
    for i in range(len(f)):
        if rng.random() < 0.3:
            f[i] = "+"
    if r < 0.2:
        f = f[:rng.randint(0, len(f))] + ["#"]
    elif r < 0.3:
        f = f + ["#"]
    elif r < 0.37:
        f = f + ["+"]
    elif r < 0.44:
        f = f[:-1] or ["#"]
    elif r < 0.5:
        f = f + [rng.choice(levels)]
    elif r < 0.55:
        f[rng.randrange(len(f))] = rng.choice(levels)
    if f == [""]:
        f = ["+"]
    return "/".join(f)


def p_match(rng):
    levels = rng.sample(LEVELS, rng.randint(2, 5)) + ["a"]
    topics = list({rnd_topic(rng, levels, [1, 2, 2, 3, 3, 4, 5]) for _ in range(8)})
    filters = list({rnd_filter(rng, topics, levels) for _ in range(12)})
    bads = ["a#", "#/a", "a/+b", "a+", "a/#/b", "+#"]
    if rng.random() < 0.3:
        filters.append(rng.choice(bads))
    prof = dict(clients=["a", "b", "c"], topics=topics, filters=filters, pq=[0, 0, 0, 1], sq=[0, 0, 1], nfs=[1, 1, 2, 3], clean=[True, False],
                pr=[False, False, True], p_empty=0.1,
                w=weights(connect=2, publish=22, ack=4, subscribe=8, unsubscribe=4, disconnect=0.3, close=0.5, advance=0.3, ping=0))
    if rng.random() < 0.3:
        prof["shares"] = ["$share/g/" + rng.choice(filters), "$share/h/" + rng.choice(filters)]
        prof["p_share"] = 0.3
    rc = {}
    if rng.random() < 0.15:
        n = rng.choice([1, 2, 3])
        deny = rng.choice(["deny_all", "deny_retained_only"])
        rc = dict(conf=dict(minimum_wildcard_subscription_depth=n, wildcard_subscription_deny_mode=deny), cfg=dict(minwild=n, wilddeny=deny[5:].replace("retained_only", "retained")))
    return rc, prof


# ------------------------------------------------------------------------------------------------ message delivery
def limits(rng, prob=0.4):
    """queue limits; the smallest that can be configured are 32 messages and 4096 bytes"""
    conf, cfg = {}, {}
    if rng.random() < prob:
        n = rng.choice([32, 33, 40])
        conf["max_qos_msg_pending_per_client"] = n
        cfg["maxmsgs"] = n
    if rng.random() < prob:
        n = rng.choice([4096, 6000])
        conf["max_qos_bytes_pending_per_client"] = n
        cfg["maxbytes"] = n
    return conf, cfg


# room for large payloads
BIG = dict(conf=dict(max_qos_bytes_pending_per_client=10000000), cfg=dict(maxbytes=10000000))


def tight(rng, conf, prof):
    """make the configured queue limits matter"""
    if "max_qos_msg_pending_per_client" in conf:
        prof["pipe"] = 25
        prof["w"]["pipeline"] = 4
        prof["w"]["ack"] = prof["w"].get("ack", 8) * rng.choice([0.3, 1])
        prof["pipeonly"] = "publish"
    if "max_qos_bytes_pending_per_client" in conf:
        prof["pad"] = [0, 100, 700, 1500]


def p_qos1(rng):
    conf, cfg = limits(rng, 0.3)
    prof = dict(pq=[1, 1, 1, 0, 2], sq=[1, 1, 2], clean=[False, False, False, True], sei=[300, 2000, INF, 0], rm=[65535, 65535, 10, 3],
                ackmode=rng.choice(["fifo", "random", "mostly"]), p_dup2=0.2, p_cut=0.05, mei=rng.choice([[-1], [-1, -1, 11, 101]]),
                w=weights(connect=5, publish=12, ack=8, subscribe=3, unsubscribe=0.7, disconnect=2, close=3, advance=1.5, pipeline=1.5, parallel=0.7))
    tight(rng, conf, prof)
    return dict(conf=conf, cfg=cfg), prof


def p_qos2(rng):
    conf, cfg = limits(rng, 0.2)
    prof = dict(pq=[2, 2, 2, 1], sq=[2, 2, 2, 1], clean=[False, False, False, True], sei=[300, 2000, INF, 0], rm=[65535, 65535, 10, 3], p_dup2=0.5,
                ackmode=rng.choice(["fifo", "random", "mostly"]), rcneg=rng.choice([0, 0, 0.2]),
                w=weights(connect=5, publish=9, ack=16, subscribe=2, unsubscribe=0.5, disconnect=2, close=3, advance=0.7, stray=rng.choice([0, 1]), pipeline=1))
    tight(rng, conf, prof)
    if rng.random() < 0.25:
        rc = dict(conf=conf, cfg=cfg, storage=True)
        rc["cfg"] = dict(cfg, persist=True)
        prof["w"]["restart"] = 0.8
        return rc, prof
    return dict(conf=conf, cfg=cfg), prof


def p_flow(rng):
    conf, cfg = limits(rng, 0.5)
    prof = dict(pq=[1, 2, 2, 1, 0], sq=[1, 2, 2], clean=[False, False, True], sei=[300, 2000, INF], rm=[1, 2, 3, 4, 65535], ackmode="random",
                rcneg=rng.choice([0, 0.2, 0.5]), p_dup2=0.1, pad=[0, 0, 30],
                w=weights(connect=3, publish=16, ack=14, subscribe=2, unsubscribe=0.3, disconnect=1, close=1.5, advance=0.5, stray=4, pipeline=1))
    tight(rng, conf, prof)
    return dict(conf=conf, cfg=cfg), prof


def p_order(rng):
    conf, cfg = limits(rng, 0.15)
    prof = dict(pq=[0, 1, 2, 1, 2], sq=[0, 1, 2, 2], clean=[False, False, True], sei=[2000, INF], filters=["t", "t/#", "#"], topics=["t", "t/u"],
                ackmode=rng.choice(["fifo", "random", "mostly"]), p_cut=0.05, pipe=9,
                w=weights(connect=4, publish=14, ack=5, subscribe=2, unsubscribe=0.3, disconnect=1.5, close=2, advance=0.5, pipeline=5, parallel=2))
    tight(rng, conf, prof)
    return dict(conf=conf, cfg=cfg), prof


def p_session(rng):
    prof = dict(vers=[5, 5, 5, 4, 4, 3], clean=[True, False], sei=[0, 0, 20, 300, INF], pq=[0, 1, 2], sq=[0, 1, 2], dsei=[-1, -1, 0, 50, 1000, INF],
                drc=[0, 0, 4], adv=[2, 10, 60, 500], users=rng.choice([{}, {}, {"a": [("u1", "p")], "b": [("u2", "q"), ("u2", "q"), ("u3", "r")]}]), p_will=0.2,
                w=weights(connect=9, publish=7, ack=4, subscribe=4, unsubscribe=0.7, disconnect=4, close=4, advance=3, late=0.3, probe=1.5))
    rc = {}
    if rng.random() < 0.5:
        n = rng.choice([60, 100, 1000])
        rc = dict(conf=dict(expire_sessions_after_seconds=n), cfg=dict(sesexp=n))
    return rc, prof


def p_takeover(rng):
    prof = dict(clients=["a", "b"], vers=[5, 5, 5, 4, 4, 3], clean=[True, False, False], sei=[0, 20, 300, INF], users=rng.choice(
                [{}, {"a": [("u1", "p"), ("u1", "p"), ("u2", "q")], "b": [("u2", "q"), ("u3", "r"), ("u2", "q")]}]), p_will=0.3, ackmode="mostly",
                w=weights(connect=14, publish=7, ack=4, subscribe=3, unsubscribe=0.3, disconnect=1, close=2, advance=1, pipeline=1, parallel=0.3))
    return {}, prof


def p_will(rng):
    cl = ["a", "b", "c"]
    wt = rng.choice([None, ["w/%c"], ["w/x", "w/%c", "$x/y"]])
    prof = dict(clients=cl, vers=[5, 5, 5, 4, 3], clean=[True, False], sei=[0, 20, 100, 2000, INF], p_will=0.75, wdelay=[0, 0, 6, 30, 200], wq=[0, 1, 2],
                wr=[False, False, True], wtopics=wt, filters=["w/#", "#", "w/a", "w/+", "t"], shares=rng.choice([[], ["$share/g/w/#"]]), p_share=0.3,
                mei=rng.choice([[-1], [-1, 7, 61]]), drc=[0, 0, 4, 4], dsei=[-1, -1, 0, 40], adv=[2, 10, 60, 300],
                props=["", '[["pfi",1],["ct","text"],["up",["k","v"]]]'], p_empty=0.05,
                users=rng.choice([{}, {}, {"a": [("u1", "p")], "b": [("u2", "q"), ("u2", "q"), ("u3", "r")]}]),
                bads=BADS if rng.random() < 0.3 else [],
                w=weights(connect=9, publish=2, ack=4, subscribe=5, unsubscribe=0.3, disconnect=4, close=5, advance=4, bad=1, probe=1, wave=0.7))
    rc = {}
    if rng.random() < 0.3:
        prof["clients"] = ["a", "b", "c", "d", "e"]
        prof["w"]["wave"] = 3
    if rng.random() < 0.1:
        rc = dict(storage=True, cfg=dict(persist=True), conf={})
        prof["w"].update(restart=0.5, halfway=1)
        return rc, prof
    if rng.random() < 0.3:
        n = rng.choice([60, 100])
        rc = dict(conf=dict(expire_sessions_after_seconds=n), cfg=dict(sesexp=n))
    if rng.random() < 0.25:
        prof["ka3"] = prof["ka5"] = [10, 30, 60000]
    if rng.random() < 0.08:
        rc = dict(conf=dict(wills_enabled="false"), cfg=dict(wills=False))
    return rc, prof


# ------------------------------------------------------------------------------------------------ retained messages
def p_retained(rng):
    levels = rng.sample(LEVELS, rng.randint(2, 4)) + ["a"]
    topics = list({rnd_topic(rng, levels, [1, 2, 2, 3, 3, 4]) for _ in range(7)})
    filters = list({rnd_filter(rng, topics, levels) for _ in range(10)}) + ["#", "+/#"]
    prof = dict(topics=topics, filters=filters, pr=[True, True, True, False], p_empty=0.25, rh=[0, 0, 0, 1, 2], rap=[False, True], mei=rng.choice([[-1], [-1, 5, 51]]),
                props=["", '[["ct","x"],["up",["a","b"]],["up",["c","d"]]]'], clean=[True, False], sid=[0, 0, 5, 300],
                w=weights(connect=2, publish=14, ack=5, subscribe=10, unsubscribe=2, disconnect=0.5, close=1, advance=1))
    rc = dict(conf={}, cfg={})
    if rng.random() < 0.2:
        n = rng.choice([20, 100])
        rc = dict(conf=dict(expire_retained_messages_after_seconds=n), cfg=dict(retexp=n))
        prof["mei"] = [-1, 5, 51, 201]
    if rng.random() < 0.2:
        rc["storage"] = True
        rc["cfg"] = dict(rc["cfg"], persist=True)
        prof["w"]["restart"] = 0.7
    return rc, prof


def p_retopt(rng):
    prof = dict(topics=["t", "t/u", "s"], filters=["t", "t/#", "+", "#", "s"], shares=["$share/g/t", "$share/g/#"], p_share=0.2, pr=[True, True, False],
                p_empty=0.1, rh=[0, 1, 2], rap=[False, True], nl=[False, False, True], vers=[5, 5, 5, 4], nfs=[1, 2, 3], clean=[True, False],
                bridge=[False, False, True], sid=[0, 9],
                w=weights(connect=4, publish=12, ack=4, subscribe=12, unsubscribe=3, disconnect=0.5, close=1.5, advance=0.3))
    return {}, prof


RMODES = dict(enabled="enabled", downgrade="downgrade", drop="drop", disconnect_with_error="disconnect", enabled_without_retaining="noretain",
              enabled_without_persistence="nopersist")


def retmode(rng, conf=None, cfg=None):
    conf, cfg = conf if conf is not None else {}, cfg if cfg is not None else {}
    mode = rng.choice(sorted(RMODES))
    conf["retained_messages_mode"], cfg["rmode"] = mode, RMODES[mode]
    return conf, cfg


def p_retmode(rng):
    conf, cfg = retmode(rng)
    prof = dict(pr=[True, True, False], p_empty=0.1, rh=[0, 1], rap=[False, True], p_will=0.4, wr=[True, False], filters=["t", "#", "w/#", "t/#"],
                w=weights(connect=5, publish=10, ack=5, subscribe=5, unsubscribe=0.5, disconnect=1, close=3, advance=1))
    return dict(conf=conf, cfg=cfg), prof


# ------------------------------------------------------------------------------------------------ shared subscriptions
def p_share(rng):
    prof = dict(clients=["a", "b", "c", "d"], topics=["t", "t/u", "s"], filters=["t", "#"], shares=["$share/g/t", "$share/g/t/#", "$share/h/t", "$share/g/+"],
                p_share=0.8, pq=[0, 1, 2], sq=[0, 1, 2], clean=[True, False], sei=[0, 30, 300], maxconn=6,
                w=weights(connect=5, publish=14, ack=6, subscribe=6, unsubscribe=3, disconnect=1.5, close=2.5, advance=1.5))
    t = rng.choice(["round_robin", "sender_hash"])
    return dict(conf=dict(shared_subscription_targeting=t)), prof


# ------------------------------------------------------------------------------------------------ expiry
def p_expiry(rng):
    conf, cfg = limits(rng, 0.3)
    prof = dict(vers=[5, 5, 5, 4], mei=[-1, 1, 3, 11, 61, 301], pq=[1, 2, 1, 0], sq=[1, 2], pr=[False, False, True], adv=[2, 2, 10, 60, 200], clean=[False, False, True],
                sei=[2000, INF], p_will=0.3, wdelay=[0, 20, 100], filters=["t", "t/#", "#", "w/#"], rm=[65535, 3],
                w=weights(connect=5, publish=12, ack=3, subscribe=4, unsubscribe=0.3, disconnect=3, close=3, advance=7, probe=1.5))
    tight(rng, conf, prof)
    if rng.random() < 0.3:
        n = rng.choice([20, 100])
        conf["expire_retained_messages_after_seconds"] = n
        cfg["retexp"] = n
        prof["pr"] = [True, False]
    rc = dict(conf=conf, cfg=cfg)
    if rng.random() < 0.25:
        rc["storage"] = True
        cfg["persist"] = True
        prof["w"]["restart"] = 1
    return rc, prof


# ------------------------------------------------------------------------------------------------ authentication and authorization
def users_conf(rng, anon=None):
    us = {"alice": "pa", "bob": "pb", "al": "p$"}
    f = "".join(pwline(u, p, rng) for u, p in us.items())
    anon = rng.choice([True, False]) if anon is None else anon
    return dict(conf=dict(mosquitto_password_file="@DIR@/pw", allow_anonymous="true" if anon else "false"), cfg=dict(users=us, anon=anon), files={"pw": f})


def p_auth(rng):
    rc = users_conf(rng)
    creds = [("alice", "pa"), ("alice", "pa"), ("alice", "pb"), ("bob", "pb"), ("bob", ""), ("carol", "x"), ("al", "p$"), ("alice", "pa "), ("Alice", "pa")]
    prof = dict(clients=["a", "b", "c"], users={"a": creds, "b": [("bob", "pb"), ("bob", "pa")], "c": [None, None, ("carol", "z"), ("alice", "pa")]},
                p_will=0.4, filters=["#", "t", "w/#"], clean=[True, False], pr=[False, True], p_am=0.04,
                w=weights(connect=8, publish=4, ack=2, subscribe=2, unsubscribe=0.2, disconnect=1, close=1.5, advance=0.3, pipeline=8, prestray=1, badconnect=0.7, late=1))
    if rng.random() < 0.5:
        rc["listeners"] = {"main": {}, "open": {"allow_anonymous": "true"}, "shut": {"allow_anonymous": "false"}}
        prof["listeners"] = ["main", "open", "shut"]
    return rc, prof


def p_acl(rng):
    us = ["alice", "bob"]
    rules = []
    fl = ["t", "t/u", "t/#", "s", "+", "#", "s/+", "w/#", "t/+", "x/#"]
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(["anon", "user", "user", "user", "pattern"])
        acc = rng.choice(["read", "write", "readwrite", "readwrite", "deny"])
        if k == "pattern":
            f = rng.choice(["t/%c", "t/%u", "%u/#", "w/%c", "t/%u/%c", "#", "t", "%c/+"])
        else:
            f = rng.choice(fl)
        rules.append(dict(kind=k, user=rng.choice(us) if k == "user" else "", acc=acc, f=f.split("/")))
    if rng.random() < 0.6:
        rules.append(dict(kind="pattern", user="", acc=rng.choice(["readwrite", "read", "write"]), f=["#"]))
    cl = ["a", "b", "u"]
    prof = dict(clients=cl, users={"a": [("alice", "x")], "b": [("bob", "x")], "u": [None, None, ("carol", "x")]},
                topics=["t", "t/u", "t/a", "t/b", "t/alice", "alice/q", "s", "s/1", "w/a", "a/z", "t/alice/a"], filters=["#", "t/#", "+", "s", "+/+", "t/+", "w/#"],
                shares=rng.choice([[], ["$share/g/#"]]), p_share=0.2, p_will=0.3, wtopics=["w/%c", "t/%c"], wr=[False, True], pr=[False, False, True], pq=[0, 1, 2], rh=[0],
                clean=[True, False], p_dup2=0.4, p_empty=0.1,
                w=weights(connect=5, publish=16, ack=7, subscribe=6, unsubscribe=0.5, disconnect=1, close=2, advance=0.5, pipeline=0.5, badconnect=0.5))
    rc = dict(conf=dict(mosquitto_acl_file="@DIR@/acl"), cfg=dict(useacl=True, acl=rules), files={"acl": acl_file(rules, rng)})
    return rc, prof


# ------------------------------------------------------------------------------------------------ subscriptions
def p_subs(rng):
    conf, cfg = {}, {}
    if rng.random() < 0.25:
        n = rng.choice([1, 2])
        conf.update(minimum_wildcard_subscription_depth=n, wildcard_subscription_deny_mode=rng.choice(["deny_all", "deny_retained_only"]))
        cfg.update(minwild=n, wilddeny=conf["wildcard_subscription_deny_mode"][5:].replace("retained_only", "retained"))
    if rng.random() < 0.15:
        conf["subscription_identifiers_enabled"] = "false"
        cfg["sids"] = False
    if rng.random() < 0.2:
        conf["max_qos"] = cfg["maxqos"] = rng.choice([0, 1])
    prof = dict(vers=[5, 5, 5, 4, 3], nfs=[1, 2, 3, 4, 6], sid=[0, 1, 127, 128, 20000, 268435455], nl=[False, False, True], rap=[False, True], rh=[0, 1, 2],
                shares=["$share/g/t", "$share/h/#"], p_share=0.15, pr=[False, False, True], clean=[True, False], filters=["t", "t/#", "+", "#", "s", "t/u", "+/u", "$x/#"],
                bads=BADS if rng.random() < 0.3 else [],
                w=weights(connect=3, publish=14, ack=5, subscribe=8, unsubscribe=6, disconnect=0.7, close=1, advance=0.3, pipeline=1, bad=0.3))
    return dict(conf=conf, cfg=cfg), prof


def p_alias(rng):
    conf, cfg = {}, {}
    if rng.random() < 0.6:
        n = rng.choice([0, 1, 2, 5])
        conf["max_incoming_topic_alias_value"] = cfg["aliasin"] = n
    if rng.random() < 0.5:
        n = rng.choice([0, 1, 2, 5])
        conf["max_outgoing_topic_alias_value"] = cfg["aliasout"] = n
    prof = dict(vers=[5, 5, 5, 5, 4], tam=[0, 1, 2, 3, 10], p_alias=0.7, alias=[1, 2, 3, 5], p_badalias=0.06, topics=["t", "t/u", "s", "t/v", "longer/topic/name"],
                filters=["#", "t/#", "+"], pr=[False, False, True], p_empty=0.1, mps=[INF, INF, 48, 40], pad=[0, 0, 20], pq=[0, 1, 2], clean=[True, False],
                w=weights(connect=4, publish=18, ack=6, subscribe=3, unsubscribe=0.3, disconnect=1, close=2, advance=0.3, pipeline=2))
    return dict(conf=conf, cfg=cfg), prof


# ------------------------------------------------------------------------------------------------ restart
def p_restart(rng):
    conf, cfg = limits(rng, 0.15)
    cfg["persist"] = True
    prof = dict(vers=[5, 5, 4, 3], clean=[False, False, False, True], sei=[0, 100, 2000, INF], pq=[0, 1, 2, 2], sq=[0, 1, 2, 2], pr=[False, False, True], mei=[-1, -1, 51, 401],
                p_will=0.35, wdelay=[0, 0, 30, 300], wr=[False, True], filters=["t", "t/#", "+", "#", "s", "w/#"], shares=["$share/g/t", "$share/g/#"], p_share=0.12,
                sid=[0, 0, 7, 200], nl=[False, True], rap=[False, True], props=["", '[["ct","x"],["rt","r"],["cd","zz"],["up",["a","b"]],["up",["a","c"]]]', '[["pfi",1]]'],
                ackmode="mostly", p_empty=0.1, adv=[2, 10, 60, 300], rm=[65535, 65535, 5], p_dup2=0.5, tam=[0, 0, 3],
                users=rng.choice([{}, {"a": [("u1", "x")], "b": [("u2", "x"), ("u2", "x"), ("u3", "y")]}]),
                w=weights(connect=6, publish=12, ack=9, subscribe=5, unsubscribe=1, disconnect=2, close=2, advance=2, restart=2.5, halfway=rng.choice([0, 1, 2]), probe=0.5))
    tight(rng, conf, prof)
    rc = dict(conf=conf, cfg=cfg, storage=True)
    if rng.random() < 0.2:
        n = rng.choice([100, 1000])
        conf["expire_sessions_after_seconds"] = cfg["sesexp"] = n
    return rc, prof


# ------------------------------------------------------------------------------------------------ crashes and failing disks
def p_crash(rng):
    rc, prof = p_restart(rng)
    rc["cfg"]["crash"] = True
    rc["conf"]["save_state_interval"] = prof["saveint"] = rng.choice([300, 301, 307, 400])
    prof["ka"] = [0, 1000, 60]
    prof["sei"] = [0, 400, 2000, 9000, INF, INF]
    prof["mei"] = [-1, -1, -1, 401, 3001]
    prof["wdelay"] = [0, 30, 450, 2000]
    prof["steps"] = rng.choice([30, 50])
    prof["w"].update(restart=1, advance=1, save=3, kill=2.5, connect=8, subscribe=6)
    return rc, prof


# ------------------------------------------------------------------------------------------------ what belongs to the server
STAT = ["$SYS/broker/clients/total", "$SYS/broker/sessions/total", "$SYS/broker/retained messages/count"]


def p_stats(rng):
    conf, cfg = {}, dict(stats=True)
    topics = ["t", "t/u", "s", "$x/y", "$SYS/mine", "$", "$share/g"] + STAT
    filters = ["#", "+", "+/#", "+/broker/clients/total", "t/#", "$SYS/#", "$SYS/broker/+/total", "$SYS/broker/+/+", "$SYS/broker/clients/total/#", "$SYS/+/sessions/total",
               "$x/#", "$x/y", "$", "$/#", "$SYS/mine", "$sys/#", "$SYS"] + STAT + STAT
    prof = dict(clients=["a", "b", "c", "d"], topics=topics, filters=filters, clean=[True, False], sei=[0, 30, 100, INF], pq=[0, 1, 2], sq=[0, 1, 2], pr=[True, False], p_empty=0.15,
                p_will=0.4, wtopics=["w", "w/a", "$SYS/will", "$x/y"] + STAT, wr=[False, True], wdelay=[0, 0, 20], adv=[1, 2, 5, 11, 11, 12, 20, 30, 60], ka=[0, 0, 20], rh=[0, 0, 1, 2],
                rap=[False, True], sid=[0, 0, 5], tam=[0, 0, 3], shares=["$share/g/$SYS/#", "$share/g/" + STAT[0], "$share/g/#", "$share/h/+/broker/clients/total"], p_share=0.1, maxconn=6,
                w=weights(connect=6, publish=9, ack=4, subscribe=9, unsubscribe=3, disconnect=2, close=2, advance=6, second=0.4))
    rc = dict(conf=conf, cfg=cfg)
    if rng.random() < 0.3:
        prof["adv"] += [2000, 4100]
        prof["mei"] = [-1, -1, 51, 401]
    if rng.random() < 0.2:
        retmode(rng, conf, cfg)
    if rng.random() < 0.15:
        conf["max_qos"] = cfg["maxqos"] = rng.choice([0, 1])
    if rng.random() < 0.3:
        cfg["persist"] = True
        rc["storage"] = True
        prof["w"]["restart"] = 1
    return rc, prof


# ------------------------------------------------------------------------------------------------ malformed input
def p_bad(rng):
    prof = dict(bads=BADS, vers=[3, 4, 5, 5], p_will=0.3, filters=["#", "t/#", "t", "w/#"], pr=[False, True], clean=[True, False], p_pipebad=0.5,
                w=weights(connect=8, publish=5, ack=3, subscribe=3, unsubscribe=0.3, disconnect=0.5, close=0.5, advance=0.5, bad=8, badconnect=3, second=1, prestray=1.5,
                          late=1, pipeline=2))
    if rng.random() < 0.5:
        prof["p_cut"] = 0.3
    return {}, prof


def p_keepalive(rng):
    prof = dict(ka3=[0, 4, 10, 30, 300], ka5=[0, 3, 5, 10, 30, 300], adv=[2, 4, 6, 10, 14, 20, 44, 60, 100, 460], p_will=0.5, wdelay=[0, 0, 10], clean=[True, False],
                filters=["w/#", "t", "#"], sei=[0, 300, INF],
                w=weights(connect=6, publish=4, ack=2, subscribe=3, unsubscribe=0.2, disconnect=0.5, close=0.7, advance=14, ping=7, open=0.7, prestray=0.7, late=0.7))
    return {}, prof


def p_size(rng):
    prof = dict(vers=[5, 5, 5, 4], mps=[INF, 38, 40, 45, 60, 140, 150], pad=[0, 1, 5, 10, 20, 25, 30, 40, 110, 120, 130], pq=[0, 1, 2], sq=[0, 1, 2], rm=[65535, 2, 3], tam=[0, 0, 2],
                props=["", '[["ct","abcdefgh"]]', '[["up",["key","value"]]]'], sid=[0, 5, 300], pr=[False, False, True], clean=[False, False, True], sei=[300, INF],
                p_will=0.2, filters=["t", "t/#", "#", "w/#"], mei=[-1, -1, 1001],
                w=weights(connect=5, publish=18, ack=8, subscribe=4, unsubscribe=0.3, disconnect=1.5, close=2, advance=0.5))
    return {}, prof


def p_props(rng):
    vals = ["", '[["pfi",1]]', '[["ct","text/plain"]]', '[["rt","reply/to"],["cd","corr"]]', '[["up",["k","v"]],["up",["k","w"]],["up",["","e"]]]',
            '[["ct","c"],["rt","r/s"],["cd","d"],["up",["a","b"]],["up",["c","d"]]]', '[["cd","%s"]]' % ("z" * 200), '[["up",["%s","%s"]]]' % ("k" * 130, "v" * 300)]
    prof = dict(vers=[5, 5, 5, 4, 3], props=vals, pad=[0, 0, 1, 60, 130, 300, 20000], mei=[-1, -1, 301, 100001], pr=[False, False, True], p_will=0.35, wr=[False, True],
                filters=["t", "t/#", "#", "w/#"], topics=["t", "t/u", "\u00e9/\u4e2d", "long/" + "x" * 300], clean=[False, False, True], sei=[2000, INF], sid=[0, 0, 3, 200], tam=[0, 0, 2],
                p_alias=0.2, p_cut=0.1, nl=[False, True], rap=[False, True],
                w=weights(connect=5, publish=14, ack=7, subscribe=5, unsubscribe=0.3, disconnect=1.5, close=2.5, advance=1, pipeline=1))
    rc = copy.deepcopy(BIG)
    if rng.random() < 0.35:
        rc["storage"] = True
        rc["cfg"]["persist"] = True
        prof["w"]["restart"] = 1
    return rc, prof


def p_announce(rng):
    conf, cfg = {}, {}
    if rng.random() < 0.4:
        conf["max_qos"] = cfg["maxqos"] = rng.choice([0, 1, 2])
    if rng.random() < 0.4:
        conf["max_qos_msg_pending_per_client"] = cfg["maxmsgs"] = rng.choice([32, 100, 65535])
    if rng.random() < 0.4:
        conf["max_incoming_topic_alias_value"] = cfg["aliasin"] = rng.choice([0, 1, 3])
    if rng.random() < 0.3:
        conf["max_outgoing_topic_alias_value"] = cfg["aliasout"] = rng.choice([0, 1, 3])
    if rng.random() < 0.3:
        conf["max_packet_size"] = cfg["mpsin"] = rng.choice([2000, 65536])
    if rng.random() < 0.4:
        conf["expire_sessions_after_seconds"] = cfg["sesexp"] = rng.choice([60, 1000])
    if rng.random() < 0.4:
        retmode(rng, conf, cfg)
    if rng.random() < 0.3:
        conf["subscription_identifiers_enabled"] = "false"
        cfg["sids"] = False
    prof = dict(clients=["a", "b", "", "", "c"], vers=[3, 4, 5, 5], clean=[True, False], sei=[0, 20, 60, 2000, INF], rm=[65535, 1, 5], tam=[0, 1, 10], mps=[INF, 100], ka3=[0, 20, 65535],
                ka5=[0, 3, 4, 5, 6, 20, 65535], p_will=0.3, wq=[0, 1, 2], wr=[False, True], pq=[0, 1, 2], sq=[0, 1, 2], sid=[0, 0, 5], p_alias=0.2, alias=[1, 2, 3],
                dsei=[-1, 0, 100], pr=[False, True], users=rng.choice([{}, {"a": [("u1", "x"), ("u2", "y")]}]), maxconn=8, adv=[2, 4],
                w=weights(connect=14, publish=8, ack=4, subscribe=4, unsubscribe=0.5, disconnect=3, close=4, advance=0.7, second=0.3, badconnect=1))
    return dict(conf=conf, cfg=cfg), prof


def p_maxqos(rng):
    n = rng.choice([0, 1, 1, 2])
    act = rng.choice(["disconnect", "drop"])
    conf = dict(max_qos=n, mqtt3_qos_exceed_action=act)
    cfg = dict(maxqos=n, v3drop=act == "drop")
    if rng.random() < 0.3:
        retmode(rng, conf, cfg)
    prof = dict(vers=[3, 4, 5], pq=[0, 1, 2], sq=[0, 1, 2], p_will=0.5, wq=[0, 1, 2], filters=["t", "#", "w/#"], clean=[True, False], pr=[False, False, True],
                w=weights(connect=9, publish=12, ack=6, subscribe=4, unsubscribe=0.3, disconnect=1, close=3, advance=0.7, stray=0.3))
    return dict(conf=conf, cfg=cfg), prof


def p_cut(rng):
    prof = dict(vers=[5, 5, 4, 3], p_cut=0.8, pad=[0, 0, 1, 100, 130, 3000, 17000, 40000], props=["", '[["ct","x"],["up",["k","v"]]]'], p_will=0.2, pr=[False, True],
                bads=BADS, pipe=8, clean=[True, False], p_alias=0.2, tam=[0, 3], mei=[-1, 1001],
                w=weights(connect=4, publish=12, ack=6, subscribe=3, unsubscribe=0.5, disconnect=1, close=1, advance=0.3, pipeline=8, parallel=1, bad=0.5, ping=1))
    rc = copy.deepcopy(BIG)
    if rng.random() < 0.6:
        rc["listeners"] = {"main": {}, "ws": {"protocol": "websockets"}}
        prof["listeners"] = ["main", "ws", "ws"]
    return rc, prof


def p_slow(rng):
    """clients that do not read for a while"""
    w = rng.choice([4096, 16384])
    conf, cfg = limits(rng, 0.3)
    conf["client_max_write_buffer_size"] = cfg["wbuf"] = w
    if "maxbytes" not in cfg:
        conf["max_qos_bytes_pending_per_client"] = cfg["maxbytes"] = 10000000
    prof = dict(vers=[5, 5, 4, 3], pq=[0, 0, 1, 2], sq=[0, 1, 2], clean=[True, False], sei=[300, INF], rm=[65535, 65535, 5], tam=[0, 0, 3], pad=[0, 0, 100, 2000, 5000],
                floodpad=rng.choice([[2000, 10000], [30000, 60000], [100, 30000]]), filters=["t", "t/#", "#", "s"], sid=[0, 0, 5], p_will=0.2, topics=["t", "s"], nfs=[1, 1, 1, 2],
                w=weights(connect=3, publish=12, ack=8, subscribe=3, unsubscribe=0.5, disconnect=0.5, close=1, advance=0.3, pause=2.5, resume=1.5, flood=3, ping=1.5, pipeline=1))
    if rng.random() < 0.2:
        cfg["persist"] = True
        prof["w"]["restart"] = 0.5
        return dict(conf=conf, cfg=cfg, storage=True), prof
    return dict(conf=conf, cfg=cfg), prof


def p_stop(rng):
    """stops at any moment"""
    prof = dict(clients=["a", "b", "c", "d"], vers=[5, 5, 4, 3], clean=[True, False, False], sei=[0, 100, 2000, INF], pq=[0, 1, 2, 2], sq=[0, 1, 2, 2], pr=[False, False, True],
                p_will=0.6, wdelay=[0, 0, 0, 30, 300], wr=[False, True], wtopics=rng.choice([None, ["w/%c", "t", "w/x"]]), filters=["t", "t/#", "#", "w/#", "w/+"],
                shares=["$share/g/w/#", "$share/g/t"], p_share=0.1, ackmode="mostly", adv=[2, 10, 60], p_lastwords=0.6, p_dup2=0.5, floodpad=[2000, 30000], tam=[0, 0, 3],
                users=rng.choice([{}, {"a": [("u1", "x")]}]), sid=[0, 0, 7], maxconn=8,
                w=weights(connect=7, publish=9, ack=7, subscribe=5, unsubscribe=0.5, disconnect=1, close=1.5, advance=0.7, restart=4, open=0.7, prestray=0.5, half=1.2,
                          pause=rng.choice([0, 0.7]), flood=0.4, resume=0.4))
    if rng.random() < 0.2:
        return dict(), prof
    return dict(storage=True, cfg=dict(persist=True)), prof


# ------------------------------------------------------------------------------------------------ reload
def one_of(key, vals, f=None):
    """a configuration option and what it is in the specification"""
    def change(rng):
        v = rng.choice(vals)
        return {key: v}, f(v)
    return change


def boolean(key, spec, default=True):
    return one_of(key, ["true", "false", None], lambda v: {spec: default if v is None else v == "true"})


CHANGES = [
    boolean("allow_anonymous", "anon", False), boolean("subscription_identifiers_enabled", "sids"), boolean("wills_enabled", "wills"),
    one_of("max_qos", [0, 1, 2, None], lambda v: dict(maxqos=2 if v is None else v)),
    one_of("mqtt3_qos_exceed_action", ["disconnect", "drop"], lambda v: dict(v3drop=v == "drop")),
    one_of("minimum_wildcard_subscription_depth", [0, 1, 2], lambda v: dict(minwild=v)),
    one_of("wildcard_subscription_deny_mode", ["deny_all", "deny_retained_only"], lambda v: dict(wilddeny="all" if v == "deny_all" else "retained")),
    one_of("max_qos_msg_pending_per_client", [32, 100, 512], lambda v: dict(maxmsgs=v)),
    one_of("max_qos_bytes_pending_per_client", [4096, 6000, None], lambda v: dict(maxbytes=v or 65536)),
    one_of("expire_sessions_after_seconds", [60, 1000, None], lambda v: dict(sesexp=v or 1209600)),
    one_of("retained_message_max_payload_size", [10, 100, None], lambda v: dict(retmax=v or INF)),
    one_of("max_incoming_topic_alias_value", [0, 1, 3, None], lambda v: dict(aliasin=65535 if v is None else v)),
    one_of("max_outgoing_topic_alias_value", [0, 1, 3, None], lambda v: dict(aliasout=65535 if v is None else v)),
    one_of("max_packet_size", [200, 2000, 65536, None], lambda v: dict(mpsin=v or 268435455)),
]


def change_rmode(rng):
    return retmode(rng)


# lines that make a configuration invalid; None: wherever
JUNK = [(None, x) for x in (
    "no_such_option true", "max_qos 3", "max_qos", "max_qos x", "wills_enabled maybe", "listen {", "}", "allow_anonymous true false", "x" * 300, "allow_anonymous " + "t" * 250,
    "expire_sessions_after_seconds 1", "max_qos_msg_pending_per_client 1", "max_qos_bytes_pending_per_client 10", "client_max_write_buffer_size 1", "retained_messages_mode some",
    "mqtt3_qos_exceed_action none", "max_packet_size 999999999999", "max_packet_size 268435456", "minimum_wildcard_subscription_depth -1", "wildcard_subscription_deny_mode x",
    "max_incoming_topic_alias_value 70000", "bridge {\n}", "bridge {\n  address localhost\n  no_such 1\n}", "listen {\n  fullchain /nonexistent\n  privkey /nonexistent\n}",
    "listen {\n  protocol smoke\n}", "listen {\n  port 99999999\n}", "listen {\n  inet_protocol unix\n}", "listen {\n  listen {\n  }\n}", "thread_count x",
    "listen {\n  fullchain @DIR@/c.conf\n  privkey @DIR@/c.conf\n}", "mosquitto_password_file /nonexistent/dir/pw", "storage_dir /nonexistent/dir",
    "bridge {\n  address localhost\n  clientid_prefix same\n}\nbridge {\n  address localhost\n  clientid_prefix same\n}", "include_dir /nonexistent/dir", "shared_subscription_targeting all",
    "retained_messages_mode", "= =", "max_qos 1 # comment", "plugin /nonexistent/plugin.so")]


BADPW = ["nocolon", ":", "x:", ":$6$AAAA$AAAA", "alice:x", "alice:$6$AAAA", "alice:$7$x$AAAA$AAAA", "alice:$6$!!!$!!!", "alice:$5$AAAA$AAAA", "alice:$6$AAAA$AAAA$AAAA$", "a:b:c", "alice:$$$",
         "#", "bob:" + "x" * 5000, "bob:$7$1$AAAA$"]
BADACL = ["topic", "tpoic read t", "topic read a#", "topic everything t", "user", "pattern read #/a", "topic read t/#/x", "topic  readwrite a+", "pattern", "x"]


def acl_rules(rng, n):
    us = ["alice", "bob"]
    rules = []
    for _ in range(n):
        k = rng.choice(["anon", "user", "user", "user", "pattern"])
        acc = rng.choice(["read", "write", "readwrite", "readwrite", "deny"])
        f = rng.choice(["t/%c", "%u/#", "#", "t"] if k == "pattern" else ["t", "t/u", "t/#", "s", "+", "#"])
        rules.append(dict(kind=k, user=rng.choice(us) if k == "user" else "", acc=acc, f=f.split("/")))
    return rules


def new_acl(rng, cfg):
    """all of a defective file is disregarded"""
    x = rng.random()
    if x < 0.12:
        return {"acl": None}
    rules = acl_rules(rng, rng.randint(0, 6))
    t = acl_file(rules, rng)
    if x < 0.45:
        l = t.splitlines()
        i = rng.randint(0, len(l))
        b = rng.choice(BADACL)
        return {"acl": "\n".join(l[:i] + [b] + l[i:]) + rng.choice(["", "\n"])}
    cfg["acl"] = rules
    return {"acl": t}


def users_file(rng, users, bad):
    l = [pwline(u, pw, rng).strip() for u, pw in sorted(users.items())]
    rng.shuffle(l)
    for _ in range(bad):
        l.insert(rng.randint(0, len(l)), rng.choice(BADPW))
    return "\n".join(l) + rng.choice(["", "\n"])


def some_users(rng):
    return {u: rng.choice(["x", "y"]) for u in ("alice", "bob") if rng.random() < 0.7}


def new_pw(rng, cfg):
    """defective lines are disregarded"""
    if rng.random() < 0.12:
        return {"pw": None}
    cfg["users"] = some_users(rng)
    return {"pw": users_file(rng, cfg["users"], rng.choice([0, 0, 1, 3]))}


def p_reload(rng):
    conf, cfg, files, fg = {"quiet": None}, {}, {}, []        # reloads can be seen in the log
    if rng.random() < 0.55:
        cfg.update(useacl=True, acl=acl_rules(rng, rng.randint(1, 6)))
        conf["mosquitto_acl_file"] = "@DIR@/acl"
        files["acl"] = acl_file(cfg["acl"], rng)
        fg.append(new_acl)
    if rng.random() < 0.55:
        cfg["users"] = some_users(rng)
        conf["mosquitto_password_file"] = "@DIR@/pw"
        files["pw"] = users_file(rng, cfg["users"], rng.choice([0, 1]))
        fg.append(new_pw)
    ch = rng.sample(CHANGES, rng.randint(2, 8))
    if rng.random() < 0.4:
        ch.append(change_rmode)
    for f in ch:
        if rng.random() < 0.4:
            a, b = f(rng)
            conf.update(a)
            cfg.update(b)
    us = [("alice", "x"), ("alice", "y"), ("alice", "x")], [("bob", "x"), ("bob", "y"), ("carol", "x")]
    prof = dict(clients=["a", "b", "c"], vers=[3, 4, 5, 5], changes=ch, junk=JUNK, p_junk=rng.choice([0.2, 0.5, 0.8]), filegen=fg,
                users={"a": us[0], "b": us[1]} if fg and rng.random() < 0.8 else {}, clean=[True, False], sei=[0, 30, 100, 2000, INF], pr=[False, True], p_empty=0.1, p_will=0.3,
                wq=[0, 1, 2], wr=[False, True], pq=[0, 1, 2], sq=[0, 1, 2], sid=[0, 0, 5], p_alias=0.25, alias=[1, 2, 3, 5], p_badalias=0.03, tam=[0, 1, 5], pad=[0, 5, 20, 150],
                filters=["t", "t/#", "+", "#", "s", "w/#", "+/u"], rh=[0, 0, 1], rap=[False, True], topics=["t", "t/u", "s", "alice/q"], mps=[INF, INF, 100], maxconn=8,
                listeners=["main", "two"], steps=50, adv=[2, 4, 10, 60],
                w=weights(connect=7, publish=14, ack=6, subscribe=6, unsubscribe=0.5, disconnect=1.5, close=2, advance=0.7, reload=6, files=4 if fg else 0, huge=1.5, open=0.7, late=0.7,
                          pipeline=0.5))
    if any("max_qos_msg_pending_per_client" in f(rng)[0] for f in ch):
        prof["w"]["pipeline"] = 3
        prof["pipe"], prof["pipeonly"] = 20, "publish"
    rc = dict(conf=conf, cfg=cfg, files=files, listeners={"main": {}, "two": {}})
    if change_rmode not in ch and rng.random() < 0.15:
        rc["storage"] = True
        cfg["persist"] = True
        prof["w"]["restart"] = 0.7
    return rc, prof


def p_threads(rng):
    """several worker threads, and clients that do things at the same time"""
    prof = dict(clients=["a", "b", "c", "d", "e"], vers=[5, 5, 4, 3], clean=[True, False, False], sei=[0, 300, INF], pq=[0, 1, 2], sq=[0, 1, 2], topics=rng.choice([["t"], ["t", "t/u", "s"]]),
                filters=["t", "t/#", "#", "+/u", "s"], shares=["$share/g/t"], p_share=rng.choice([0, 0, 0.15]), p_will=rng.choice([0, 0.3]), ackmode=rng.choice(["random", "mostly"]), pr=[False], wr=[False],
                tam=[0, 0, 3], p_dup2=0, maxconn=7, steps=30,
                w=weights(connect=3, publish=4, ack=4, subscribe=2, unsubscribe=0.3, disconnect=0.5, close=1, advance=0.3, ping=0, concur=12))
    rc = dict(threads=rng.choice([2, 3, 4]), jitter=rng.choice([0, rng.randint(1, 1 << 20), rng.randint(1, 1 << 20)]))
    return rc, prof


PLUGTOPICS = ["t", "t/u", "s", "w/a", "w/b", "w/c"]


def plug_rules(rng, ext=False):
    """the plugin's table (harness/plugin.cpp), as the specification and as the plugin has it"""
    us = ["alice", "bob", "carol"]
    rules, text = [], ""
    n = rng.randint(1, 8)
    focus = [rng.choice(["read", "write", "subscribe", "subscribe", "will", "altpub", "altsub"])] * rng.choice([0, 8, 20])
    for i in range(n):
        op = rng.choice(focus + ["login", "login", "read", "write", "write", "subscribe", "will", "altpub", "altpub", "altsub"] + ["auth", "cont", "cont", "reauth"] * (3 if ext else 0)) if i else "login"
        cl = rng.choice(["*", "a", "b", "c"])
        user = rng.choice(["*", rng.choice(us)]) if op not in ("altpub", "altsub", "auth", "cont", "reauth") else "*"
        f = rng.choice(["*", "t", "t/u", "s", "t/#", "+", "w/#", "+/u"]) if op not in ("login", "auth", "cont", "reauth") else "*"
        t, q, r, x = "-", "-", "-", "-"
        v = "ok"
        if op == "login":
            v = rng.choice(["ok", "async", "async", "async", "async", "deny", "ldeny", "error", "throw", "unavail"])
            if v == "async":
                user = rng.choice(us)           # those have a password, by which they can be told apart
            elif v != "ok" and cl == "*" and user == "*":
                cl = rng.choice(["a", "b", "c"])
        elif op in ("auth", "cont", "reauth"):
            v = rng.choice(["ok", "cont", "cont", "async", "async", rng.choice(["deny", "ldeny", "error", "throw", "unavail", "badmeth"])])
            t = rng.choice(["-", "data"])
            if op != "reauth" and rng.random() < 0.3:
                x = rng.choice(us)
        elif op == "write":
            v = rng.choice(["ok", "deny", "ldeny", "error", "throw", "nr", "nr", "nr", "drop", "drop"])
        elif op == "subscribe":
            v = rng.choice(["ok", "deny", "ldeny", "error", "throw", "nort", "nort", "nort", "drop", "drop"])
        elif op in ("read", "will"):
            v = rng.choice(["ok", "deny", "deny", "error", "throw"])
        elif op == "altpub":
            if rng.random() < 0.6:
                t = rng.choice(["t", "t/u", "s", "al/t"])
            if rng.random() < 0.4:
                q = rng.choice("012")
            if rng.random() < 0.4:
                r = rng.choice("01")
            if rng.random() < 0.5:
                x = rng.choice(["ct", "rt", "cd", "none", "up"])
        else:
            if rng.random() < 0.7:
                t = rng.choice(["t", "t/u", "s", "t/#", "#"])
            if rng.random() < 0.5:
                q = rng.choice("012")
        rules.append(dict(op=op, cl=cl, user=user, any=f == "*", f=f.split("/"), v=v, t=[] if t == "-" else t.split("/"), tb=0 if t == "-" else len(t), q=-1 if q == "-" else int(q),
                          r=-1 if r == "-" else int(r), x="" if x == "-" else x))
        text += " ".join([op, cl, user, f, v, t, q, r, x]) + "\n"
    return rules, text


def p_plugin(rng):
    ext = rng.random() < 0.5
    rules, text = plug_rules(rng, ext)
    conf = {"quiet": None, "plugin": os.path.join(B, "plugin.so"), "plugin_opt_rules": "@DIR@/rules", "plugin_opt_fifo": "@DIR@/fifo"}
    cfg = dict(plug=rules)
    files = {"rules": text}
    if rng.random() < 0.3:
        conf["allow_anonymous"] = "false"
        cfg["anon"] = False
    if rng.random() < 0.25:
        cfg.update(useacl=True, acl=acl_rules(rng, rng.randint(1, 5)) + [dict(kind="pattern", user="", acc="readwrite", f=["#"])])
        conf["mosquitto_acl_file"] = "@DIR@/acl"
        files["acl"] = acl_file(cfg["acl"], rng)
    if rng.random() < 0.25:
        cfg["users"] = {"alice": "pa"}
        conf["mosquitto_password_file"] = "@DIR@/pw"
        files["pw"] = pwline("alice", "pa", rng)
    prof = dict(clients=["a", "b", "c"], users={"a": [("alice", "pa"), ("alice", "x")], "b": [("bob", "x")], "c": [None, ("carol", "x")]}, tag=True, rulegen=lambda r: plug_rules(r, ext), p_am=rng.choice([0.3, 0.8]) if ext else 0,
                topics=["t", "t/u", "s"], filters=["t", "t/u", "t/#", "+", "#", "s", "+/u", "w/#"], shares=rng.choice([[], ["$share/g/t", "$share/g/#"]]), p_share=0.2,
                p_will=0.3, wr=[False, True], wdelay=[0, 0, 0, 10], pr=rng.choice([[False, False, True], [True, True, False]]), pq=[0, 1, 2], sq=[0, 1, 2], clean=[True, False, False], rm=[65535, 65535, 3],
                rap=[False, True], rh=[0, 0, 1], p_alias=0.15, props=["", '[["ct","x"],["rt","r"],["cd","zz"],["up",["a","b"]]]', '[["up",["a","b"]]]', '[["pfi",1]]'], p_empty=0.05,
                w=weights(connect=6, publish=14, ack=7, subscribe=6, unsubscribe=0.5, disconnect=1, close=2, advance=0.5, pipeline=2, decide=6, defer=8, rules=1, plugpub=2))
    if prof["p_am"]:
        prof["w"]["auth"] = 6
    rc = dict(conf=conf, cfg=cfg, files=files)
    return rc, prof


def p_default(rng):
    return {}, {}


def p_mix(rng):
    """a bit of everything"""
    name = rng.choice(["qos1", "qos2", "flow", "order", "session", "takeover", "will", "retained", "retopt", "share", "expiry", "acl", "subs", "alias", "restart", "bad", "keepalive",
                       "size", "props", "match"])
    rc, prof = PROFILES[name](rng)
    name2 = rng.choice(["will", "qos2", "session", "share", "props", "subs"])
    _, p2 = PROFILES[name2](rng)
    for k, v in p2.items():
        if k in ("clients", "users", "topics", "filters", "bads", "w", "pad") or k in prof:
            continue
        prof[k] = v
    for k in p2["w"]:
        prof["w"].setdefault(k, 0)
        prof["w"][k] = (prof["w"][k] + p2["w"][k]) / 2
    return rc, prof


PROFILES = {k[2:]: v for k, v in globals().items() if k.startswith("p_") and callable(v)}
