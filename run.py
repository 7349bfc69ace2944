#!/usr/bin/env python3
"""Checks one property: drives the broker built from /repo's working tree and has TLC check what it did against the specification.
run.py --property PXX --tier quick|thorough [--replay FILE] [--seconds N] [--seed N]"""
import argparse, json, multiprocessing as mp, os, queue, random, re, shutil, signal, sys, tempfile, time, traceback, zlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
from harness import build, checks, tlc
from harness.server import HarnessError, ServerDied, Stuck

NW = min(8, os.cpu_count() or 1)
QUICK, THOROUGH = 32, 780           # seconds of driving
BATCH = 14


def make(driver, rng):
    """one recorded execution"""
    kind, _, arg = driver.partition(":")
    from harness import drivers
    return drivers.MAKE[kind](arg, rng)


def again(rec):
    from harness import drivers
    return drivers.AGAIN[rec["driver"]](rec)


def judge(recs, timeout=40):
    """[(record, why)] for the records the specification rejects, and statistics"""
    bad, st, n, inc = [], (0, 0), 0, 0
    by = {}
    for r in recs:
        by.setdefault(r["module"], []).append(r)
    for m, rs in by.items():
        h = tlc.start(rs, m)
        res, s, i = verdicts(rs, h, m, timeout)
        bad += res
        st = (st[0] + s[0], st[1] + s[1])
        n += len(rs) - i
        inc += i
    return bad, st, n, inc


def verdicts(rs, h, m, timeout=40):
    t0 = time.time()
    try:
        res, st = tlc.finish(h, timeout)
    except HarnessError:
        res, st = {}, (0, 0)
    if os.environ.get("FMQ_SLOW") and time.time() - t0 > 12:
        print("slow: %.0f s, %d runs, %d left: %s" % (time.time() - t0, len(rs), len([i for i in range(len(rs)) if i not in res]), [r["made"] for i, r in enumerate(rs) if i not in res or len(rs) < 6]), flush=True)
    for i in range(len(rs)):
        if i not in res:                     # one of the batch is hard or cannot be evaluated
            try:
                r1, s1 = tlc.finish(tlc.start([rs[i]], m), timeout)
            except HarnessError as e:
                if not re.search(r"evaluat|Attempted to|applied to", str(e)) or "semantic analysis" in str(e):
                    raise
                res[i] = (False, -1, "the specification cannot be evaluated on this: " + str(e)[-700:])
                continue
            if 0 in r1:
                res[i] = r1[0]
            else:
                print("inconclusive:", rs[i].get("made"))
            st = (st[0] + s1[0], st[1] + s1[1])
    bad = []
    for i, r in enumerate(rs):
        if i in res and not res[i][0]:
            bad.append((r, "step %d: %s" % (res[i][1], res[i][2]), res[i][1]))
        elif r.get("failure"):
            bad.append((r, "the broker failed: " + r["failure"][:600], len(r["steps"])))
    return bad, st, len([1 for i in range(len(rs)) if i not in res])


def confirm(rec):
    """A rejection counts when the same inputs, given again, are rejected again (or when it's hard evidence by itself)."""
    if rec.get("hard"):
        return rec, None
    tries = 3 if rec.get("failure") else 5
    for _ in range(tries):
        try:
            r = again(rec)
        except (ServerDied, Stuck) as e:
            r = dict(rec, failure=str(e), steps=[])
        except Exception:
            traceback.print_exc()
            continue
        bad, _, _, _ = judge([r])
        if bad:
            return bad[0][0], bad[0][1]
    return None, None


def worker(wid, pid, seed, parts, counter, stop, deadline, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.nice(5)                          # the exploration of the models goes first
    try:
        names, ws = [p[0] for p in parts], [p[1] for p in parts]
        pending = None

        def finish(p):
            recs, hs, cnt = p
            for m, rs, h in hs:
                bad, st, inc = verdicts(rs, h, m)
                out.put(("stat", len(rs) - inc, st, inc, sum(len(r["steps"]) for r in rs), cnt))
                for b in bad:
                    out.put(("bad",) + b)

        from harness import drivers
        last = False
        first = True
        while not last:
            recs = []
            for _ in range(5 if first else BATCH):
                if stop.is_set() or time.time() > deadline:
                    last = True
                    break
                with counter.get_lock():
                    i = counter.value
                    counter.value += 1
                rng = random.Random("%s/%s/%s" % (seed, pid, i))
                d = rng.choices(names, ws)[0]
                if i < 3 * len(names):
                    d = names[i % len(names)]       # all of them, early
                if not drivers.ready(d):            # still being simulated
                    d = rng.choices(*zip(*[p for p in parts if not p[0].startswith("model:")]))[0]
                try:
                    r = make(d, rng)
                except (ServerDied, Stuck) as e:
                    r = dict(module="Trace", driver="boot", cfg={}, steps=[], failure=str(e), rc={}, made=(d, "%s/%s/%s" % (seed, pid, i)))
                r["made"] = [d, "%s/%s/%s" % (seed, pid, i)]
                recs.append(r)
            first = False
            if pending:
                finish(pending)
                pending = None
            if recs and not stop.is_set():
                by = {}
                for r in recs:
                    by.setdefault(r["module"], []).append(r)
                cnt = {}
                for r in recs:
                    cnt["run:" + r["made"][0]] = cnt.get("run:" + r["made"][0], 0) + 1
                    for k, v in r.get("cover", cover(r)).items():
                        cnt[k] = cnt.get(k, 0) + v
                pending = (recs, [(m, rs, tlc.start(rs, m)) for m, rs in by.items()], cnt)
                out.put(("recs", [shape(r) for r in recs], brief(recs[0])))
        if pending and not stop.is_set():
            finish(pending)
        elif pending:
            for m, rs, h in pending[1]:
                h[0].kill()
                tlc.finish_quiet(h)
    except BaseException:
        out.put(("error", traceback.format_exc()))
    finally:
        out.put(("end", wid))
        out.close()
        out.join_thread()
        os._exit(0)


def cover(r):
    """which inputs occurred how often"""
    c = {}
    for s in r["steps"]:
        ev = s["ev"]
        for x in (sum(ev["q"], []) if ev["e"] == "burst" else [ev]):
            c[x["e"]] = c.get(x["e"], 0) + 1
        for o in s["out"]:
            k = "broker:" + str(o[1]["k"]) if isinstance(o, list) else "broker"
            c[k] = c.get(k, 0) + 1
    return c


def shape(r):
    """a digest of the inputs, and whether the run is non-trivial: at least three kinds of input, and the broker sent something other than acknowledgements of CONNECT"""
    evs = [s["ev"] for s in r["steps"]]
    kinds = {e["e"] for e in evs}
    outs = sum(1 for s in r["steps"] for o in s["out"] if not (isinstance(o, list) and o[1].get("k") == "connack"))
    return zlib.crc32(json.dumps(evs, sort_keys=True, default=str).encode()), bool(r.get("nontrivial", len(kinds) >= 3 and outs > 0))


def brief(r):
    return dict(driver=r["made"][0], conf=(r.get("rc") or {}).get("conf") or {}, steps=len(r["steps"]),
                sample=[dict(input={k: v for k, v in s["ev"].items() if v not in (0, "", [], False, None)}, broker=s["out"][:6], closed=s["closed"]) for s in r["steps"][:12]])


def save(pid, rec, why):
    d = os.path.join(VERIF, "build", "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%08x.json" % (pid, zlib.crc32(json.dumps(rec.get("steps"), default=str).encode() + why.encode())))
    with open(f, "w") as g:
        json.dump(dict(property=pid, why=why, record=rec), g, indent=1, default=str)
    return f


def known():
    try:
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def listed(pid, rec, why):
    """is this rejection one of the findings on record?"""
    for k in known()["findings"]:
        if k["property"] == pid and re.search(k["match"], why):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--seed")
    ap.add_argument("--keep-going", action="store_true", help="collect all rejections instead of stopping at the first one")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    seed = a.seed if a.seed is not None else os.environ.get("VERIF_SEED", "1")
    try:
        build.ensure()
        for v in checks.NEEDS.get(pid, []):
            build.ensure(v)
    except build.BuildError as e:
        print("build failed:", e)
        return 2
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)["record"]
        r, why = confirm(rec)
        if r:
            print("rejected again: %s" % (why or "hard evidence"))
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("accepted")
        return 0
    # the models: behaviours to be given to the broker, and the exploration of all short ones
    from harness import models
    names = checks.MODELS.get(pid, [])
    thorough = a.tier == "thorough"
    tdir = tempfile.mkdtemp(prefix="fmqv-", dir="/tmp")
    os.environ["FMQ_TRAILS"] = tdir
    sims = {m: models.start(m, 22, 1, 3000 if thorough else 300, zlib.crc32(str(seed).encode()) & 0x7fffffff, 300 if thorough else 60) for m in names}
    mc = [models.start(m, models.DEPTH[m][thorough], 2, limit=700 if thorough else 75, heap="8g" if thorough else "2g") for m in names]
    secs = a.seconds or (THOROUGH if a.tier == "thorough" else QUICK)
    deadline = time.time() + secs
    counter = mp.Value("i", 0)
    stop = mp.Event()
    out = mp.Queue()
    ws = [mp.Process(target=worker, args=(i, pid, seed, checks.CHECKS[pid], counter, stop, deadline, out), daemon=True) for i in range(NW)]
    for w in ws:
        w.start()
    live = NW
    n = inc = steps = states = distinct = errors = 0
    shapes, samples, cov = {}, [], {}
    viol, unconf, found = [], [], {}
    grace = deadline + 400
    while live:
        for k in [k for k, h in sims.items() if h["p"].poll() is not None]:
            t = models.gather(models.finish(sims.pop(k)))
            if not t:
                continue
            with open(os.path.join(tdir, k + ".tmp"), "w") as f:
                json.dump(t, f)
            os.rename(os.path.join(tdir, k + ".tmp"), os.path.join(tdir, k + ".json"))
        try:
            m = out.get(timeout=1 if sims else 5)
        except queue.Empty:
            if time.time() > grace:
                break
            if not any(w.is_alive() for w in ws):
                break
            continue
        if m[0] == "end":
            live -= 1
        elif m[0] == "error":
            errors += 1
            print("harness error:", m[1])
        elif m[0] == "recs":
            for h, nt in m[1]:
                shapes[h] = nt
            if len(samples) < 2:
                samples.append(m[2])
        elif m[0] == "stat":
            n += m[1]
            states += m[2][0]
            distinct += m[2][1]
            inc += m[3]
            steps += m[4]
            for k, v in m[5].items():
                cov[k] = cov.get(k, 0) + v
        elif m[0] == "bad" and not (viol and not a.keep_going):
            rec, why = m[1], m[2]
            k = listed(pid, rec, why)
            if k:
                found[k["id"]] = k
                continue
            r, w2 = confirm(rec)
            if r is None:
                unconf.append((rec, why))
                print("rejected once, but not again with the same inputs: %s %s" % (rec.get("made"), why[:600]))
                save(pid + "-once", rec, why)
            else:
                w = w2 or why
                k = listed(pid, r, w)
                if k:
                    found[k["id"]] = k
                else:
                    viol.append((save(pid, r, w), w, rec.get("made")))
                    print("rejected: %s %s" % (rec.get("made"), w[:1500]))
                    if not a.keep_going:
                        stop.set()
            if len(unconf) >= 3 and not viol:
                rec, why = unconf[0]
                viol.append((save(pid, rec, why), why, rec.get("made")))
                if not a.keep_going:
                    stop.set()
    for w in ws:
        w.join(1)
        if w.is_alive():
            w.kill()
    mcres = []
    for h in sims.values():
        models.kill(h)
    for h in mc:
        if viol:
            models.kill(h)
            continue
        r = models.finish(h)
        mcres.append(r)
        if r["violated"]:
            # the specification itself does not have the property: that says nothing about the broker, unless it does what the behaviour found has it do
            errors += 1
            print("model %s: %s\n%s" % (r["name"], r["violated"], r["tail"]))
        elif r["error"]:
            errors += 1
            print("model %s: %s" % (r["name"], r["error"]))
    shutil.rmtree(tdir, ignore_errors=True)
    for k in found.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    level = checks.LEVEL.get(pid, "model_checking")
    c = dict(evaluations=n, distinct_nontrivial=sum(1 for v in shapes.values() if v),
             rule="each case is one execution of the real broker on random inputs (profiles: %s); distinct by the digest of its inputs, non-trivial when it has at least three kinds of input and the broker sent more than CONNACKs" % ", ".join(p[0] for p in checks.CHECKS[pid]),
             samples=samples or [dict(none=True)], steps_checked=steps, inconclusive=inc, rejected_once=len(unconf), events=dict(sorted(cov.items())),
             states=distinct + sum(r["distinct"] for r in mcres), transitions=states + sum(r["generated"] for r in mcres), traces_validated_against_impl=n,
             models=[{k: r[k] for k in ("name", "generated", "distinct", "depth", "exhaustive", "wall_s")} for r in mcres])
    ev = dict(property=pid, tier=a.tier, seed=int(seed) if str(seed).lstrip("-").isdigit() else 0, level=level, coverage=c, wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=["the virtual clock and the quiescence detection of harness/shim.c", "one worker thread, Unix sockets, unless the driver says otherwise"])
    os.makedirs("evidence", exist_ok=True)
    with open("evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d runs (%d steps, %d distinct non-trivial, %d inconclusive), %d states, %.0f s" % (pid, n, steps, c["distinct_nontrivial"], inc, distinct, time.time() - t0))
    if viol:
        for f, w, _ in viol[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if errors or n == 0:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
