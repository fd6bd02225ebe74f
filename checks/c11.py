"""C11: ballot codes: an offline checker over the recorded histories of mediators and over single codes."""
import json, time
import common as c
import elect as e
import oracle as o
from oracle import H, QE, Q

RULE = ("device hashes and ballot codes over boundary values against the oracle; histories of several mediators over the same device in one "
        "process, mixing full, compact and refused ballots, recorded and then replayed by a checker that recomputes every link; ballots made with "
        "and without seed, code and timestamp; timestamps against the wall clock; distinct by values or history")
ASSUMPTIONS = ["hashlib is correct", "the system clock is not set back during a run"]
I = e.I


def u64(rng):
    return rng.choice([0, 1, 2**32 - 1, 2**32, 2**63, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(16), rng.getrandbits(40)])


def codes(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        dev, ses, lau, loc = u64(rng), u64(rng), u64(rng), e.txt(rng)
        w = H(dev, ses, lau, loc)
        try:
            g = I(d.call("code_device", str(dev), str(ses), str(lau), loc.encode())[0])
            obs.ev("device hash", (dev, ses, lau, loc), sample="%d %d %d %r" % (dev, ses, lau, loc))
            if g != w: obs.bad("device hash of (%d, %d, %d, %r) is %064X, expected %064X" % (dev, ses, lau, loc, g, w), sig="device")
            d.call("dev_make", "d", str(dev), str(ses), str(lau), loc.encode())
            r = json.loads(bytes.fromhex(d.call("dump", "dev", "d")[0]))
            if I(r["hash"]) != w or (r["dev"], r["session"], r["launch"], r["loc"]) != (dev, ses, lau, loc):
                obs.bad("device made of (%d, %d, %d, %r) holds %s" % (dev, ses, lau, loc, r), sig="device")
            s, t, h = c.qval(rng, False), u64(rng), c.qval(rng, False)
            w = H(QE(s), t, QE(h))
            g = I(d.call("code_ballot", s, str(t), h)[0])
            obs.ev("code", (s, t, h))
            if g != w: obs.bad("code of seed %X, time %d, hash %X is %064X, expected %064X" % (s, t, h, g, w), sig="code")
            t0 = time.time()
            ts = int(d.call("dev_ts", "d")[0])
            obs.ev("clock")
            if not int(t0) - 1 <= ts <= time.time() + 1: obs.bad("device timestamp %d at time %f" % (ts, t0), sig="clock")
        except (c.LibEx, c.Died) as ex:
            obs.bad("%s" % ex, sig="died")
            d.restart()
    d.close()


def histories(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=1, seats=1)
        case = dict(manifest=e.jdump(m))
        try:
            ss = e.Session(d, rng, m)
            dv = (u64(rng), u64(rng), u64(rng), e.txt(rng))
            d.call("dev_make", ss.dev, *[str(x) for x in dv[:3]], dv[3].encode())
            nm = rng.choice([1, 2, 3])
            for x in range(nm): d.call("med_make", "med%d" % x, ss.int, ss.ctx, ss.dev)
            log = {x: [] for x in range(nm)}
            for step in range(rng.randint(4, 9)):
                x = rng.randrange(nm)
                b = e.ballot(rng, m)
                k = rng.random()
                t0 = time.time()
                if k < 0.2:
                    b["style"] += "?"
                    ss.load(b)
                    try:
                        d.call(rng.choice(["med_encrypt", "med_compact"]), "med%d" % x, "x", "pb", False)
                        obs.bad("unknown style accepted", sig="style", **case)
                    except c.LibEx:
                        log[x].append(("refused",))
                    continue
                ss.load(b)
                if k < 0.65:
                    d.call("med_encrypt", "med%d" % x, "cb", "pb", rng.random() < 0.1)
                    r = ss.dump("cb", "cb")
                    log[x].append(("full", r["id"], I(r["seed"]), r["ts"], I(r["code"]), I(r["hash"]), t0, time.time(), b["id"], I(r["mh"])))
                else:
                    d.call("med_compact", "med%d" % x, "cc", "pb", False)
                    q = json.loads(bytes.fromhex(d.call("dump", "cc", "cc")[0]))
                    d.call("cc_expand", "cb", "cc", ss.int, ss.ctx)
                    r = ss.dump("cb", "cb")
                    log[x].append(("compact", r["id"], I(q["seed"]), q["ts"], I(q["code"]), I(r["hash"]), t0, time.time(), b["id"], I(r["mh"])))
                    if (I(r["seed"]), r["ts"], I(r["code"])) != (I(q["seed"]), q["ts"], I(q["code"])):
                        obs.bad("a compact ballot and its expansion differ in seed, time or code", sig="compact", **case)
            replay(obs, log, H(*dv), ss, case)
            made(obs, rng, d, ss, case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **case)
    d.close()


def replay(obs, log, first, ss, case):
    """offline: every link of every mediator's recorded chain"""
    seen = {}
    for x, l in log.items():
        prev, last, key = first, 0, []
        for j, ev in enumerate(l):
            key.append(ev[0])
            if ev[0] == "refused":
                obs.note("refusals inside a chain")
                continue
            kind, bid, seed, ts, code, bh, t0, t1, want, mh = ev
            obs.ev("link " + kind, (code, tuple(key)), sample="%s after %s" % (kind, key[:-1]))
            if seed != prev:
                obs.bad("ballot %d of mediator %d after %s has seed %064X, the previous code is %064X" % (j, x, key, seed, prev), sig="chain", **case)
            w = H(QE(seed), ts, QE(bh))
            if code != w: obs.bad("ballot code %064X is not the hash of seed, time and ballot hash %064X" % (code, w), sig="code", **case)
            if not int(t0) - 1 <= ts <= t1 + 1: obs.bad("timestamp %d of a ballot encrypted at %f" % (ts, t0), sig="clock", **case)
            if ts < last: obs.bad("timestamps run backwards: %d after %d" % (ts, last), sig="clock", **case)
            if bid != want or mh != ss.mh: obs.bad("ballot identifier %r or manifest hash not kept" % bid, sig="content", **case)
            if code in seen: obs.bad("two ballots share the code %064X" % code, sig="repeat", **case)
            seen[code] = 1
            prev, last = code, ts
        obs.note("chains", 1)
        obs.note("longest chain <= 9" if len(l) < 10 else "chains over 9")


def made(obs, rng, d, ss, case):
    """one-shot encryption and assembling from contests: seeds, codes and timestamps as given"""
    b = e.ballot(rng, ss.m)
    ss.load(b)
    seed, ts = rng.choice([0, 0, 1, Q - 1] + [c.qval(rng, False)] * 4), rng.choice([0, 1, 2**32, 2**63, 2**64 - 1, rng.getrandbits(40)])
    t0 = time.time()
    r = ss.encrypt(seed=seed, nonce=rng.randrange(1, Q), ts=ts, verify=False)
    obs.ev("one-shot", (seed, ts))
    if I(r["seed"]) != seed: obs.bad("given seed %064X, stored %s" % (seed, r["seed"]), sig="seed", **case)
    if ts and r["ts"] != ts: obs.bad("given timestamp %d, stored %d" % (ts, r["ts"]), sig="ts", **case)
    if not ts and not int(t0) - 1 <= r["ts"] <= time.time() + 1: obs.bad("no timestamp given, stored %d" % r["ts"], sig="clock", **case)
    if I(r["code"]) != H(QE(seed), r["ts"], QE(I(r["hash"]))): obs.bad("one-shot ballot code is wrong", sig="code", **case)
    for hasseed in (False, True):
        for hascode in (False, True):
            spec = dict(r, seed="%X" % rng.choice([0, 1, Q - 1, rng.randrange(1, Q)]) if hasseed else None,
                        code="%X" % rng.choice([0, 1, rng.randrange(1, Q)]) if hascode else None, ts=rng.choice([0, ts, 77]))
            t0 = time.time()
            d.call("cb_make", "mk", json.dumps(spec).encode())
            g = ss.dump("cb", "mk")
            obs.ev("made", e.jdump([spec["seed"], spec["code"], spec["ts"]]))
            ws = I(spec["seed"]) if hasseed else ss.mh
            if I(g["seed"]) != ws: obs.bad("ballot made with seed %s has seed %s, expected %064X" % (spec["seed"], g["seed"], ws), sig="made-seed", **case)
            if spec["ts"] and g["ts"] != spec["ts"]: obs.bad("ballot made with timestamp %d has %d" % (spec["ts"], g["ts"]), sig="ts", **case)
            if not spec["ts"] and not int(t0) - 1 <= g["ts"] <= time.time() + 1: obs.bad("ballot made without timestamp has %d" % g["ts"], sig="clock", **case)
            wc = I(spec["code"]) if hascode else H(QE(ws), g["ts"], QE(I(r["hash"])))
            if I(g["code"]) != wc: obs.bad("ballot made with code %s has %s, expected %064X" % (spec["code"], g["code"], wc), sig="made-code", **case)


def run(ck):
    exe = c.egdrv()
    ck.shards(codes, exe, ck.scale(400, 20000))
    ck.shards(histories, exe, ck.scale(14, 500))
