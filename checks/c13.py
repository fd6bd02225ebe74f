"""C13: precompute buffers under concurrent filling, stopping, resizing, emptying and consuming; offline exactly-once and equation checkers."""
import json
import common as c
import elect as e
import oracle as o
import par
from oracle import Q, P, G, powm

RULE = ("threads that fill, consume, stop, resize, empty and inspect the buffers in random mixes with delays injected around every lock; every "
        "value handed out is recorded and checked offline against its equations and for repetition over the whole run; sizes against the configured "
        "bound in every observation; quiescent states after stop, fill and empty; ballots encrypted with full, partly filled, draining and "
        "concurrently refilled buffers opened with the secret key, verified and compared with the voter's choices; ThreadSanitizer on the same "
        "mixes; distinct by order of call begins and ends")
ASSUMPTIONS = ["libgmp and hashlib are correct", "buffers are filled for the key the ballots are encrypted to",
               "ThreadSanitizer sees the races of the schedules that ran"]
I = e.I


def fields(ans):
    f = ans.split("\t")
    if f[0] == "ok": return f[1:]
    return None


class Judge:
    """offline checker of handed out values"""
    def __init__(self, obs, keys):
        self.obs, self.keys, self.n = obs, keys, 0

    def triple(self, f, what, case):
        obs = self.obs
        x, g, k = (I(v) for v in f)
        self.n += 1
        obs.ev("triple checked", x, sample=what)
        obs.unique("exponents handed out", x)
        if not 0 < x < Q: obs.bad("%s: exponent out of range" % what, sig="range", **case)
        if g != powm(G, x): obs.bad("%s: g^x is wrong" % what, sig="equation", **case)
        if not any(k == powm(K, x) for K in self.keys): obs.bad("%s: K^x is wrong" % what, sig="equation", **case)

    def quad(self, f, what, case):
        obs = self.obs
        x, y, g, h = (I(v) for v in f)
        self.n += 1
        obs.ev("quadruple checked", x, sample=what)
        obs.unique("exponents handed out", x)
        obs.unique("exponents handed out", y)
        if not (0 < x < Q and 0 < y < Q): obs.bad("%s: exponent out of range" % what, sig="range", **case)
        if g != powm(G, x): obs.bad("%s: g^x is wrong" % what, sig="equation", **case)
        gy = powm(G, y)
        if not any(h == gy * powm(K, x) % P for K in self.keys): obs.bad("%s: g^y K^x is wrong" % what, sig="equation", **case)

    def answer(self, line, ans, case):
        """True when something was handed out"""
        f = fields(ans)
        cmd = line.split("\t")[0]
        if f is None:
            self.obs.bad("%s failed: %s" % (cmd, ans[:200]), sig="failed", **case)
            return False
        if cmd == "pre_triple" and f[0] == "1":
            self.triple(f[1:4], "triple", case)
            return True
        if cmd == "pre_tq" and f[0] == "1":
            self.triple(f[1:4], "first triple", case)
            self.triple(f[4:7], "second triple", case)
            self.quad(f[7:11], "quadruple", case)
            return True
        return False


def drain(d, j, case, limit=400):
    """take everything out; the limit is far beyond what the workloads ever put in"""
    n = m = 0
    while n < limit and not j.obs.full() and j.answer("pre_tq", d.raw(["pre_tq"])[0], case): n += 1
    while m < limit and not j.obs.full() and j.answer("pre_triple", d.raw(["pre_triple"])[0], case): m += 1
    if max(n, m) >= 400: j.obs.bad("the buffers never run dry", sig="endless", **case)
    return n, m


def size(d):
    return tuple(int(x) for x in d.call("pre_size"))


def mixes(obs, rng, i, n, exe, count, tsan):
    K = e.Keys(rng).K
    key = "%0128X" % K
    d = par.tsan_drv(exe) if tsan else c.Drv(exe)
    j = Judge(obs, [K])
    seen = set()
    for it in range(count):
        if obs.full(): break
        kind = rng.choice(["steady", "resize", "stop", "empty", "two keys", "chaos"])
        j.keys = [K]
        fb = rng.choice(["1", "1", "0"])
        cap = rng.choice([1, 2, 3, 5, 8]) if not tsan else rng.choice([1, 2, 3])
        pops = rng.randint(1, 3)
        cons = rng.randint(1, 4)
        reps = rng.randint(2, 6) if not tsan else 2


        T = []
        for p in range(pops):
            k = key
            if kind == "two keys" and p % 2:
                k2 = powm(G, rng.randrange(2, Q))
                j.keys = j.keys + [k2]
                k = "%0128X" % k2
            T.append(["pre_fill\t%s\t%s" % (fb, k)] * reps)
        for _ in range(cons): T.append([rng.choice(["pre_triple", "pre_tq", "pre_tq", "pre_size"]) for _ in range(reps * 3)])
        ctl = []
        if kind == "resize": ctl = ["pre_init\t%d" % rng.choice([1, 2, 4, 6]) for _ in range(reps)]
        elif kind == "stop": ctl = ["sleep\t%d" % rng.randrange(2000), "pre_stop", "pre_size"]
        elif kind == "empty": ctl = ["pre_empty", "pre_size"] * reps
        elif kind == "chaos": ctl = [rng.choice(["pre_empty", "pre_stop", "pre_size", "pre_init\t%d" % rng.choice([1, 2, 4])]) for _ in range(2 * reps)]
        if ctl: T.append(ctl)
        case = dict(kind=kind, cap=cap, threads=json.dumps(T)[:4000])
        try:
            d.call("pre_empty")
            d.call("pre_init", str(cap))
            rec = par.par(d, T, jitter=rng.choice([0, 1, 4, 12]), seed=rng.randrange(1, 2**40))
            ov, order = par.overlap(rec)
            obs.ev("mix " + kind + (" under TSan" if tsan else ""), order, sample="%d threads, %d overlapping calls" % (len(T), ov))
            obs.note("overlapping call pairs", ov)
            inits = [cap] + [int(l.split("\t")[1]) for l in ctl if l.startswith("pre_init")]
            for t, l in enumerate(rec):
                for line, (b, en, a) in zip(T[t], l):
                    j.answer(line, a, case)
                    if line == "pre_size":
                        f = fields(a)
                        obs.ev("size observed", "%s %s" % (f, case["kind"]), nontrivial=f is not None and f[0] != "0")
                        if f and (int(f[0]) > max(inits) or int(f[1]) not in inits):
                            obs.bad("buffer holds %s of %s, configured %s" % (f[0], f[1], inits), sig="overfull", **case)
            # quiescent: stopped buffers take nothing, filling fills exactly, emptying empties
            d.call("pre_stop")
            s0 = size(d)
            d.call("pre_fill", fb, K)
            s1 = size(d)
            obs.ev("fill after stop", "%s" % (s0,))
            if s1[0] != s0[0]: obs.bad("filled from %d to %d after a stop request" % (s0[0], s1[0]), sig="stop", **case)
            if kind == "stop":
                at = next(int(fields(a)[0]) for line, (b, en, a) in zip(ctl, rec[-1]) if line == "pre_size")
                if s0[0] > at + pops: obs.bad("%d values when stopped, %d when the fillers had ended (%d fillers)" % (at, s0[0], pops), sig="stop", **case)
            n2 = rng.choice([1, 2, 3, 4, 7]) if not tsan else 2
            if rng.random() < 0.4:
                d.call("pre_empty")
                if size(d)[0] != 0 or fields(d.raw(["pre_tq"])[0]) != ["0"] or fields(d.raw(["pre_triple"])[0]) != ["0"]:
                    obs.bad("emptied buffers hand something out", sig="empty", **case)
                obs.ev("emptied", s1)
            left = size(d)[0]
            d.call("pre_init", str(n2))
            d.call("pre_fill", fb, K)
            s2 = size(d)
            obs.ev("filled at rest", "%d %d" % (left, n2))
            if s2 != (max(n2, left), n2): obs.bad("filling %d into buffers holding %d gives %s" % (n2, left, s2), sig="fill", **case)
            if rng.random() < (0.5 if not tsan else 0.2):
                got, tr = drain(d, j, case)
                if j.obs.full(): break
                if got != s2[0]: obs.bad("%d were announced, %d handed out" % (s2[0], got), sig="conservation", **case)
                if size(d)[0] != 0: obs.bad("drained buffers announce %d" % size(d)[0], sig="conservation", **case)
                obs.ev("drained", "%d %d" % (got, tr))
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
    d.close()
    if tsan:
        for kindr, where, blk in par.reports(d.stderr()):
            obs.bad("ThreadSanitizer: %s in %s" % (kindr, where), sig="tsan " + kindr + where, report=blk)


def big_stop(obs, rng, i, n, exe, count):
    """stop requests at random times while far from full"""
    K = e.Keys(rng).K
    d = c.Drv(exe)
    for it in range(count):
        pops = rng.randint(1, 4)
        T = [["pre_fill\t1\t%0128X" % K] for _ in range(pops)] + [["sleep\t%d" % rng.randrange(0, 60000), "pre_stop", "pre_size"]]
        case = dict(threads=json.dumps(T))
        try:
            d.call("pre_empty")
            d.call("pre_init", "100000")
            rec = par.par(d, T, jitter=rng.choice([0, 2]), seed=rng.randrange(1, 2**40))
            at = int(fields(rec[-1][-1][2])[0])
            end = size(d)
            obs.ev("stop while filling", "%d %d" % (at, pops), sample="%d values at stop, %d after" % (at, end[0]))
            if end[0] > at + pops or end[0] > 5000: obs.bad("%d values when stopped, %d after (%d fillers)" % (at, end[0], pops), sig="stop", **case)
            d.call("pre_empty")
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
    d.close()


def large(obs, rng, i, n, exe, sizes):
    """buffers of hundreds of values: filled to the brim, taken from, emptied, and the standard size"""
    K = e.Keys(rng).K
    d = c.Drv(exe)
    cap = sizes[i % len(sizes)]
    case = dict(cap=cap)
    j = Judge(obs, [K])
    try:
        d.call("pre_init", str(cap))
        want = cap or 5000
        if size(d) != (0, want): obs.bad("fresh buffers of %d announce %s" % (cap, size(d)), sig="fresh", **case)
        d.call("pre_fill", True, K)
        s = size(d)
        obs.ev("large buffers filled", cap, sample="%s" % (s,))
        if s != (want, want): obs.bad("filled to %s of %d" % (s, want), sig="fill", **case)
        take = rng.randint(3, 40)
        T = [["pre_tq"] * take for _ in range(3)] + [["pre_triple"] * take]
        rec = par.par(d, T, jitter=1, seed=rng.randrange(1, 2**40))
        obs.ev("taken from large buffers", "%d %d" % (cap, take))
        for t, l in enumerate(rec):
            for q, (line, (_, _, a)) in enumerate(zip(T[t], l)):
                if q % 13 == 0: j.answer(line, a, case)
                elif fields(a)[0] == "1":
                    f = fields(a)[1:]
                    for k in ((0,) if line == "pre_triple" else (0, 3, 6, 7)): obs.unique("exponents handed out", I(f[k]))
                else: obs.bad("full buffers of %d gave nothing" % cap, sig="dry", **case)
        s = size(d)
        if s[0] != want - 3 * take: obs.bad("%d taken from %d leave %d" % (3 * take, want, s[0]), sig="conservation", **case)
        d.call("pre_empty")
        obs.ev("large buffers emptied", cap)
        if size(d)[0] != 0 or fields(d.raw(["pre_tq"])[0]) != ["0"] or fields(d.raw(["pre_triple"])[0]) != ["0"]:
            obs.bad("emptied buffers of %d announce %d" % (cap, size(d)[0]), sig="empty", **case)
    except c.Died as ex:
        obs.bad("%s" % ex, sig="died", **case)
    d.close()


def ballots(obs, rng, i, n, exe, count, tsan=False):
    d = par.tsan_drv(exe) if tsan else c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=2, seats=2, odd=False, wide=e.wide(i, it == 0 and not tsan))
        case = dict(manifest=e.jdump(m))
        try:
            ss = e.Session(d, rng, m)
            d.call("pre_empty")
            j = Judge(obs, [ss.K])
            nt = rng.choice([1, 1, 2, 3])
            per = 2
            bs, T = [], []
            for t in range(nt):
                l = []
                for q in range(per):
                    b = e.ballot(rng, m)
                    b["id"] += "-%d-%d" % (t, q)
                    nonce = rng.randrange(1, Q)
                    l += ["pb_build\tpb\t" + json.dumps(b).encode().hex()]
                    l += [c.line("enc_ballot", "cb", "pb", ss.int, ss.ctx, rng.randrange(1, Q), nonce, "77", rng.random() < 0.3), "dump\tcb\tcb"]
                    bs.append((t, len(l) - 1, b, nonce))
                T.append(l)
            state = rng.choice(["full", "partial", "draining", "refilling", "refilling"])
            if state == "full": d.call("pre_init", "40"); d.call("pre_fill", True, ss.K)
            elif state == "partial": d.call("pre_init", "%d" % rng.randint(1, 5)); d.call("pre_fill", True, ss.K)
            elif state == "draining":
                d.call("pre_init", "12"); d.call("pre_fill", True, ss.K)
                T.append(["pre_tq", "pre_triple", "spin\t100000"] * 3)
            else:
                d.call("pre_init", "3")
                T.append(["pre_fill\t1\t%0128X" % ss.K, "sleep\t500"] * 6)
                if rng.random() < 0.5: T.append(["sleep\t20000", "pre_empty", "sleep\t20000", "pre_empty"])
            case["state"] = state
            before = size(d)[0]
            rec = par.par(d, T, jitter=rng.choice([0, 2]), seed=rng.randrange(1, 2**40))
            used = 0
            for t, l in enumerate(rec):
                for line, (_, _, a) in zip(T[t], l): j.answer(line, a, case)
            for t, at, b, nonce in bs:
                cs = dict(case, ballot=e.jdump(b))
                f = fields(rec[t][at - 1][2])
                if f is None:
                    obs.bad("a valid ballot was refused with %s buffers: %s" % (state, rec[t][at - 1][2][:300]), sig="refused", **cs)
                    continue
                cb = json.loads(bytes.fromhex(fields(rec[t][at][2])[0]))
                obs.ev("ballot with %s buffers" % state, e.jdump([m, b]), sample="%d threads" % nt)
                e.judge_votes(ss, cb["contests"], e.expect(m, b), lambda t_: obs.bad("%s buffers: %s" % (state, t_), sig="votes", **cs))
                for k, x in zip(cb["contests"], e.expect(m, b)):
                    cn, cp, sn, ed = e.nonces(m, ss.mh, b["id"], nonce, x["contest"])
                    obs.unique("pads and commitments", I(k["hashed"]["pad"]))
                    obs.unique("pads and commitments", I(k["proof"][0]))
                    for s, w, v in zip(k["sels"], sn, x["votes"]):
                        r = I(s["nonce"])
                        if r != w:
                            used += 1
                            obs.unique("exponents handed out", r)
                        if I(s["pad"]) != powm(G, r) or I(s["data"]) != powm(G, v) * powm(ss.K, r) % P:
                            obs.bad("%s buffers: the recorded nonce of %r does not open its ciphertext" % (state, s["id"]), sig="opens", **cs)
                        obs.unique("pads and commitments", I(s["pad"]))
                        for q in range(4): obs.unique("pads and commitments", I(s["proof"][q]))
                if rng.random() < 0.5:
                    d.call("cb_build", "v", json.dumps(cb).encode())
                    obs.ev("ballot verified with %s buffers" % state, e.jdump([m, b]))
                    if d.call("cb_valid", "v", ss.mh, ss.K, ss.ext)[0] != "1": obs.bad("%s buffers: the ballot does not verify" % state, sig="verify", **cs)
                    k = rng.choice(cb["contests"])
                    s = rng.choice(k["sels"])
                    bad = [q for q, ok in o.disj_equations(I(s["pad"]), I(s["data"]), ss.K, ss.ext, [I(y) for y in s["proof"]]).items() if not ok]
                    bad += [q for q, ok in o.const_equations(I(k["acc"][0]), I(k["acc"][1]), ss.K, ss.ext,
                                                             [I(y) for y in k["proof"][:4]] + [k["proof"][4]]).items() if not ok]
                    if bad: obs.bad("%s buffers: proof equations fail: %s" % (state, bad), sig="proof", **cs)
            obs.note("selections encrypted from buffers", used)
            if state == "full" and used == 0: obs.note("full buffers unused")
            drain(d, j, case, 6)
            d.call("pre_empty")
            # and afterwards, with empty buffers, the derivation is the ordinary one
            b = e.ballot(rng, m)
            ss.load(b)
            cb = ss.encrypt(nonce=5, verify=False)
            for k, x in zip(cb["contests"], e.expect(m, b)):
                cn, cp, sn, ed = e.nonces(m, ss.mh, b["id"], 5, x["contest"])
                if [I(s["nonce"]) for s in k["sels"]] != sn: obs.bad("emptied buffers were used for encryption", sig="emptied", **case)
            obs.ev("ballot after emptying", e.jdump([m, b]))
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **case)
    d.close()
    if tsan:
        for kindr, where, blk in par.reports(d.stderr()):
            obs.bad("ThreadSanitizer: %s in %s" % (kindr, where), sig="tsan " + kindr + where, report=blk)


def run(ck):
    exe = c.egpar()
    ts = c.egpar("tsan")
    ck.shards(mixes, exe, ck.scale(14, 800), False)
    ck.shards(big_stop, exe, ck.scale(3, 100), n=2)
    ck.shards(large, exe, ck.scale([260, 300, 520, 1030], [260, 520, 1030, 0]), n=4)
    ck.shards(ballots, exe, ck.scale(5, 200))
    ck.shards(mixes, ts, ck.scale(3, 60), True)
