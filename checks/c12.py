"""C12: nonces: derivation rule, reproducibility, and an offline uniqueness checker over everything recorded."""
import json
import common as c
import elect as e
import oracle as o
from oracle import H, QE, Q, G, P, powm

RULE = ("ballots of random elections encrypted in two processes with different histories (other elections, other bases, accelerated keys, other "
        "functions before), with the same and with different nonces, ballot identifiers and contests; every recorded nonce against the derivation "
        "rule and its ciphertext; all nonces, pads, proof commitments and extra-data pads of a run collected and checked for repetition; ballots "
        "without given nonce in many processes; distinct by (election, ballot, nonce)")
ASSUMPTIONS = ["libgmp and hashlib are correct", "a collision of 256-bit random values does not happen by chance"]
I = e.I


def public(cb):
    """what must be reproducible"""
    return e.jdump(dict(id=cb["id"], hash=cb["hash"], code=cb["code"], seed=cb["seed"], ts=cb["ts"], nonce=cb["nonce"], contests=[
        dict(id=k["id"], hash=k["hash"], acc=k["acc"], hashed=k["hashed"], nonce=k["nonce"],
             sels=[[s["id"], s["pad"], s["data"], s["hash"], s["nonce"], s["ph"]] for s in k["sels"]]) for k in cb["contests"]]))


def derive(obs, ss, b, cb, nonce, case):
    if nonce is not None and I(cb["nonce"]) != nonce: obs.bad("given nonce %X, stored %s" % (nonce, cb["nonce"]), sig="given", **case)
    nonce = I(cb["nonce"])
    if not 0 < nonce < Q: obs.bad("ballot nonce %X out of range" % nonce, sig="range", **case)
    for k, x in zip(cb["contests"], e.expect(ss.m, b)):
        cn, cp, sn, ed = e.nonces(ss.m, ss.mh, b["id"], nonce, x["contest"])
        if I(k["nonce"]) != cn: obs.bad("contest %r: nonce %s, derived %X" % (k["id"], k["nonce"], cn), sig="contest nonce", **case)
        for s, w, v in zip(k["sels"], sn, x["votes"]):
            obs.ev("selection nonce", w, sample="%s %s" % (b["id"], s["id"]))
            if I(s["nonce"]) != w: obs.bad("selection %r: nonce %s, derived %X" % (s["id"], s["nonce"], w), sig="selection nonce", **case)
            r = I(s["nonce"])
            if I(s["pad"]) != powm(G, r) or I(s["data"]) != powm(G, v) * powm(ss.K, r) % P:
                obs.bad("selection %r: the recorded nonce does not open the ciphertext" % s["id"], sig="opens", **case)
        if I(k["hashed"]["pad"]) != powm(G, ed): obs.bad("contest %r: extra data encrypted with another nonce" % k["id"], sig="extra nonce", **case)
        obs.ev("contest nonce", cn)
        ex = [o.disj_exposed([I(y) for y in s["proof"]], w, v, q=ss.ext) for s, w, v in zip(k["sels"], sn, x["votes"])]
        ex.append(o.const_exposed([I(y) for y in k["proof"][:4]] + [k["proof"][4]], sum(sn) % Q, q=ss.ext))
        for y in ex:
            if y: obs.bad("contest %r: a proof's secret exponent is %s, published values" % (k["id"], y), sig="exposed", **case)
        a = powm(G, o.Nonces(cp, "constant-chaum-pedersen-proof").get(0))
        if I(k["proof"][0]) != a: obs.bad("contest %r: proof commitment is not derived from its seed" % k["id"], sig="contest proof", **case)


def record(obs, cb, fresh=True):
    """everything that must never repeat; fresh: not a repetition of a recorded encryption"""
    for k in cb["contests"]:
        if fresh:
            obs.unique("contest nonces", I(k["nonce"]))
            obs.unique("extra data pads", k["hashed"]["pad"])
            obs.unique("pads and commitments", I(k["proof"][0]))
            obs.unique("pads and commitments", I(k["hashed"]["pad"]))
        for s in k["sels"]:
            if fresh:
                obs.unique("selection nonces", I(s["nonce"]))
                obs.unique("pads and commitments", I(s["pad"]))
            # selection proofs are drawn anew even when a ballot is encrypted again
            for j in range(4): obs.unique("pads and commitments", I(s["proof"][j]))
            for j in (7, 8): obs.unique("responses", I(s["proof"][j]))


def work(obs, rng, i, n, exe, count):
    d1, d2 = c.Drv(exe), c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=2, seats=1, wide=e.wide(i, it == 0))
        case = dict(manifest=e.jdump(m))
        try:
            st = rng.getstate()
            s1 = e.Session(d1, rng, m)
            rng.setstate(st)
            s2 = e.Session(d2, rng, m)
            # a different history in the second process
            if rng.random() < 0.5: d2.call("load", "man", "manx", "j", bytes.fromhex(d2.call("ser", "man", s2.man, "j")[0]))
            d2.call("ctx_make", s2.ctx, "f", str(s2.n), str(s2.k), "%01024X" % s2.K, "%064X" % s2.commit, "%064X" % s2.mh, "-", b"null".hex())
            if rng.random() < 0.5:
                s2.load(e.ballot(rng, m)); s2.encrypt(out="other", nonce=rng.randrange(1, Q), verify=False)
            b = e.ballot(rng, m)
            case["ballot"] = e.jdump(b)
            nonce, seed, ts = rng.choice([1, Q - 1, rng.randrange(1, Q), rng.randrange(1, Q)]), rng.randrange(Q), rng.randrange(1, 2**40)
            b["id"] += e.word(rng, 6, 6)       # so that boundary nonces do not repeat between cases
            for s in (s1, s2): s.load(b)
            x1 = s1.encrypt(nonce=nonce, seed=seed, ts=ts, verify=False)
            derive(obs, s1, b, x1, nonce, case)
            record(obs, x1)
            v2 = rng.random() < 0.15
            x2 = s2.encrypt(nonce=nonce, seed=seed, ts=ts, verify=v2)
            record(obs, x2, False)
            obs.ev("same inputs, other process", e.jdump([m, b]))
            if public(x1) != public(x2): obs.bad("the same inputs give different ballots in two processes", sig="reproducible", **case)
            x1b = s1.encrypt(nonce=nonce, seed=seed, ts=ts, verify=False)
            record(obs, x1b, False)
            obs.ev("same inputs, again", e.jdump([m, b]))
            if public(x1) != public(x1b): obs.bad("the same inputs give different ballots when repeated", sig="reproducible", **case)
            # the per-contest function from the same seed
            ns = H(QE(s1.mh), b["id"], QE(nonce))
            if I(d1.call("nonce_seed", s1.mh, b["id"].encode(), nonce)[0]) != ns: obs.bad("nonce seed differs", sig="nonceseed", **case)
            ks = json.loads(bytes.fromhex(d1.call("enc_contests", "pb", s1.int, s1.ctx, ns, False)[0]))
            record(obs, dict(contests=ks), False)
            if public(dict(x1, contests=ks)) != public(x1): obs.bad("encryptContests with the ballot's nonce seed differs", sig="contests", **case)
            obs.ev("same inputs, encryptContests", e.jdump([m, b]))
            # other identifier, other nonce: everything differs
            for change in ("id", "nonce", "none given", "none given"):
                b2, n2 = dict(b), nonce
                if change == "id": b2["id"] = b["id"] + rng.choice(["x", " ", "\u0301"])
                elif change == "nonce": n2 = nonce ^ (1 << rng.randrange(255)) or 5
                else: n2 = None
                n2 = n2 if n2 is None else n2 % Q or 7
                s1.load(b2)
                x = s1.encrypt(nonce=n2, seed=seed, ts=ts, verify=False)
                derive(obs, s1, b2, x, n2, case)
                record(obs, x)
                if n2 is None: obs.unique("drawn ballot nonces", I(x["nonce"]))
                obs.ev("changed " + change, e.jdump([m, b2, n2]))
            # mediators draw for themselves, in both processes
            for d, s in ((d1, s1), (d2, s2)):
                s.load(b)
                d.call("med_make", "med", s.int, s.ctx, s.dev)
                d.call("med_encrypt", "med", "cb", "pb", False)
                x = s.dump("cb", "cb")
                derive(obs, s, b, x, None, case)
                record(obs, x)
                obs.unique("drawn ballot nonces", I(x["nonce"]))
                d.call("med_compact", "med", "cc", "pb", False)
                y = json.loads(bytes.fromhex(d.call("dump", "cc", "cc")[0]))
                obs.unique("drawn ballot nonces", I(y["nonce"]))
                d.call("cc_expand", "cb", "cc", s.int, s.ctx)
                x = s.dump("cb", "cb")
                derive(obs, s, b, x, I(y["nonce"]), case)
                record(obs, x)
                obs.ev("mediator", x["nonce"])
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d1.restart(); d2.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **case)
    d1.close(); d2.close()


def draws(obs, rng, i, n, exe, procs):
    """many short-lived processes that encrypt the same ballot without a given nonce"""
    for _ in range(procs):
        d = c.Drv(exe)
        st = rng.getstate()
        s = e.Session(d, __import__("random").Random(5), maxc=1, maxs=1, seats=1, odd=False)
        r = __import__("random").Random(6)
        s.load(e.ballot(r, s.m))
        x = s.encrypt(seed=1, nonce=None, ts=1, verify=False)
        obs.unique("drawn ballot nonces", I(x["nonce"]))
        record(obs, x)
        obs.ev("new process", x["nonce"])
        d.close()


def run(ck):
    exe = c.egdrv()
    ck.shards(work, exe, ck.scale(10, 250))
    ck.shards(draws, exe, ck.scale(4, 100))
