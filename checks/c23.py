"""C23: random values: entropy-source monitor with fault injection, statistical and uniqueness monitors."""
import random
import common as c
import elect as e
import oracle as o
import par
from oracle import P, Q, G, powm

LEVEL = "fault_enumeration"
RULE = ("(1) populations of rand_q and rand_p draws in many processes, threads and forked children: range, repetition, every bit's frequency, byte "
        "histograms per position, correlation of every pair of bits; (2) every request to the operating system's generator (open/read of the random "
        "devices, getrandom, getentropy, by function or system call) observed per draw; a chosen stream with a frozen clock shows how many of its bytes "
        "the value depends on; (3) every request of a draw, a proof, a ballot encryption, a mediator encryption and a precomputation made to fail, be "
        "interrupted, end early or fall short, once and persistently; distinct by (operation, fault, request)")
ASSUMPTIONS = ["the operating system's generator is sound; at most 1 in 10^8 runs trips a statistical threshold by chance"]
I = e.I
KINDS = ["fail", "intr", "again", "nosys", "eof", "short", "half", "one"]


# ---- (1) statistics ------------------------------------------------------------------------------
def draws(obs, rng, i, n, exe, nq, np_, procs):
    cols = {"q": (256, Q), "p": (4096, P)}
    for kind, total in (("q", nq), ("p", np_)):
        bits, mod = cols[kind]
        vals = []
        per = max(1, total // procs)
        for _ in range(procs):
            d = c.Drv(exe)
            left = per
            while left > 0:
                k = min(left, 500)
                for h in d.call("rand_" + kind, str(k)):
                    v = I(h)
                    if v >= mod: obs.bad("rand_%s drew %s, out of range" % (kind, h), sig="range")
                    obs.unique("rand_%s draws" % kind, h)
                    vals.append(v)
                left -= k
            d.close()
        obs.ev("draws of rand_" + kind, None)
        obs.note("values of rand_%s" % kind, len(vals))
        for v in vals: obs.distinct.add(v.to_bytes(512, "big")[-8:])
        obs.n += len(vals)
        obs.data["rand_" + kind] = vals


def stats(obs, rng):
    for kind in "qp":
        vals = obs.data["rand_" + kind]
        bits = 256 if kind == "q" else 4096
        n = len(vals)
        # transpose: column b as one number with bit k = bit b of draw k
        rows = [format(v, "0%db" % bits) for v in vals]
        col = [int("".join(r), 2) for r in zip(*rows)]     # most significant first
        lim = 6.8 * n ** 0.5 / 2
        for b, x in enumerate(col):
            ones = x.bit_count()
            if abs(ones - n / 2) > lim: obs.bad("rand_%s: bit %d is 1 in %d of %d draws" % (kind, bits - 1 - b, ones, n), sig="bit")
        obs.note("bit positions tested, rand_%s" % kind, bits)
        pairs = 0
        step = range(1, bits) if kind == "q" else [1, 2, 8, 16, 32, 63, 64, 65, 128, 256, 512, 2048]
        for dist in step:
            for b in range(bits - dist):
                x = (col[b] ^ col[b + dist]).bit_count()
                pairs += 1
                if abs(x - n / 2) > lim: obs.bad("rand_%s: bits %d and %d differ in %d of %d draws" % (kind, bits - 1 - b, bits - 1 - b - dist, x, n), sig="pair")
        obs.note("bit pairs tested, rand_%s" % kind, pairs)
        # successive draws: each bit against the same bit of the draw before
        mask = (1 << (n - 1)) - 1
        for b, x in enumerate(col):
            y = ((x ^ (x >> 1)) & mask).bit_count()
            if abs(y - (n - 1) / 2) > lim: obs.bad("rand_%s: bit %d changes in %d of %d successive draws" % (kind, bits - 1 - b, y, n - 1), sig="serial")
        for pos in range(bits // 8):
            h = [0] * 256
            for v in vals: h[(v >> (8 * pos)) & 255] += 1
            x2 = sum((k - n / 256) ** 2 for k in h) * 256 / n
            # n is large enough that each cell expects more than 5; 255 degrees of freedom
            if n >= 2000 and x2 > 460: obs.bad("rand_%s: byte %d has a chi-square of %.0f over %d draws" % (kind, pos, x2, n), sig="byte")
        obs.note("byte positions tested, rand_%s" % kind, bits // 8)


def shared(obs, rng, i, n, exe, rounds):
    """the same process, threads drawing together, and forked children"""
    d = c.Drv(exe)
    for it in range(rounds):
        ths = [[c.line("rand_q", "10")] * 6 + [c.line("rand_p", "2")] for _ in range(8)]
        for th in par.par(d, ths, rng.choice([0, 30, 80]), rng.getrandbits(30)):
            for b, en, ans in th:
                if not ans.startswith("ok"): obs.bad("drawing in threads: %s" % ans[:200], sig="threads"); continue
                for h in ans.split()[1:]: obs.unique("draws in threads", h)
        obs.ev("threads drawing together", (i, it))
        vals = d.call("fork_draw", str(rng.randrange(5)), "5", "4")
        for h in vals: obs.unique("draws around fork", h)
        obs.ev("forked children", (i, it))
        # a frozen clock does not make draws repeat
        d.call("en_time", str(1700000000))
        for h in d.call("rand_q", "20"): obs.unique("draws with the clock frozen", h)
        obs.ev("clock frozen", (i, it))
        d.call("en_reset")
    d.close()


# ---- (2) the source ------------------------------------------------------------------------------
def stat(d): return [int(x) for x in d.call("en_stat")]


def source(obs, rng, exe):
    d = c.Drv(exe)
    for kind, need in (("q", 32), ("p", 32)):
        for _ in range(20):
            d.call("en_reset")
            d.call("rand_" + kind, "1")
            ev, got, _f, _l = stat(d)
            obs.ev("requests of one draw", kind, sample="%d requests, %d bytes" % (ev, got))
            if got < need: obs.bad("rand_%s took %d bytes from the operating system" % (kind, got), sig="no entropy")
        def run(seed, flip=None):
            d.call("en_reset"); d.call("en_time", "1700000000")
            d.call("en_stream", str(seed), *([] if flip is None else [str(flip)]))
            return d.call("rand_" + kind, "1")[0]
        base = {s: run(s) for s in range(1, 41)}
        if len(set(base.values())) != len(base): obs.bad("rand_%s repeats although the entropy differs" % kind, sig="stream")
        # which bytes of the entropy matter
        d.call("en_reset"); d.call("rand_" + kind, "1")
        total = stat(d)[1]
        seen = {}
        for j in range(total):
            v = run(7, j)
            if v != base[7]: seen.setdefault(v, []).append(j)
        obs.ev("bytes of the source that the value depends on", kind, sample="%d of %d" % (sum(map(len, seen.values())), total))
        if len(seen) < 32: obs.bad("rand_%s: only %d of %d entropy bytes change the value" % (kind, len(seen), total), sig="few bytes")
        # each changed byte changes about half of the bits
        for v in list(seen)[:64]:
            x = (I(v) ^ I(base[7])).bit_count()
            if x < 64: obs.bad("rand_%s: a changed entropy byte changes %d bits only" % (kind, x), sig="diffusion")
    d.close()


# ---- (3) faults ----------------------------------------------------------------------------------
def faults(obs, rng, i, n, exe, kinds, each, seed):
    rng = random.Random("faults %d" % seed)        # the same operations in all workers, which share the points
    d = c.Drv(exe)
    r, s = rng.randrange(1, Q), rng.randrange(2, Q)
    K = powm(G, s)
    a, b = o.enc(1, r, K)
    m = e.manifest(rng, odd=False, maxc=1, maxs=2, seats=1)
    ss = e.Session(d, rng, m)
    bl = e.ballot(rng, m)
    ss.load(bl)
    d.call("med_make", "med", ss.int, ss.ctx, ss.dev)
    ops = {
        "rand_q": [["rand_q", "1"]],
        "rand_p": [["rand_p", "1"]],
        "selection proof": [["dmake", a, b, r, False, K, 5, "-", "1"]],
        "proof with precomputed values": [["dmake_pre", K, 5, "1"]],
        "ballot": [["enc_ballot", "cb", "pb", ss.int, ss.ctx, 5, "-", "7", False]],
        "mediator": [["med_encrypt", "med", "cb", "pb", False]],
        "compact": [["med_compact", "med", "cc", "pb", False]],
        "precomputation": [["pre_init", "1"], ["pre_fill", False, K]],
    }
    job = 0
    for name, lines in ops.items():
        d.call("en_reset")
        for l in lines: d.call(*l)
        ev, full, _f, _l = stat(d)
        if name == "precomputation": d.call("pre_init", "0"); d.call("pre_empty")
        if not ev: obs.bad("%s asks the operating system for nothing" % name, sig="no entropy")
        points = list(range(1, ev + 1))
        if len(points) > each: points = sorted(set(points[:each // 3] + points[-each // 3:] + rng.sample(points, each // 3)))
        for pt in points:
            for kind in kinds:
                for persist in (False, True):
                    job += 1
                    if job % n != i or obs.full(): continue
                    d.call("en_plan", kind, str(pt), persist)
                    ans, err = None, None
                    try:
                        for l in lines: ans = d.call(*l)
                    except c.LibEx as ex: err = str(ex)
                    except c.Died as ex:
                        obs.bad("%s with %s at request %d: %s" % (name, kind, pt, ex), sig="died " + name)
                        return
                    ev2, got, fired, _l = stat(d)
                    d.call("en_reset")
                    case = dict(operation=name, fault=kind, request=pt, persistent=persist)
                    if not fired: obs.note("fault not reached"); continue
                    obs.ev("%s: %s" % (name, kind), (pt, persist), sample="request %d of %d, %s" % (pt, ev, err or "value"))
                    # a value may only come from as much entropy as without the fault (a library may try again)
                    if err is None and got < full:
                        obs.bad("%s gave a value although request %d of %d %s (%d of %d bytes delivered%s)" % (
                            name, pt, ev, kind, got, full, ", persistently" if persist else ""), sig="value " + name, **case)
                    if name == "precomputation":
                        while True:
                            t = d.call("pre_triple")
                            if t[0] != "1": break
                            if I(t[2]) != powm(G, I(t[1])) or I(t[3]) != powm(K, I(t[1])): obs.bad("precomputed values are wrong after a fault", sig="pre", **case)
                            obs.unique("exponents", t[1])
                        d.call("pre_init", "0"); d.call("pre_empty")
                    # and everything works again afterwards
                    try:
                        for l in lines: ans = d.call(*l)
                        if name.startswith("rand"): obs.unique("draws after a fault", ans[0])
                        if name in ("ballot", "mediator"):
                            x = ss.dump("cb", "cb")
                            obs.unique("ballot nonces", x["nonce"])
                            e.judge_votes(ss, x["contests"], e.expect(m, bl), lambda w: obs.bad("after a fault: " + w, sig="after", **case))
                        if name == "precomputation":
                            while True:
                                t = d.call("pre_triple")
                                if t[0] != "1": break
                                obs.unique("exponents", t[1])
                            d.call("pre_init", "0"); d.call("pre_empty")
                    except c.LibEx as ex:
                        obs.bad("%s is refused after a fault: %s" % (name, ex), sig="after " + name, **case)
    d.close()


def run(ck):
    exe, ent = c.egdrv(), c.egent()
    ck.shards(draws, exe, ck.scale(6000, 60000), ck.scale(2100, 12000), 3)
    ck.run(stats)
    ck.shards(shared, ent, ck.scale(4, 100))
    ck.run(source, ent)
    ck.shards(faults, ent, ck.scale(["fail", "intr", "eof", "short", "half"], KINDS), 1000, ck.seed)
