"""C01: differential monitor of every modular operation against big-integer arithmetic."""
import common as c
import oracle as o
from common import D, Died, LibEx, line

LEVEL = "exploration"
RULE = ("operands drawn from boundary values, limb patterns (zero/all-ones/sparse), unreduced values and uniform "
        "values; a case is distinct by (operation, operands); every result is compared with libgmp/Python integers; "
        "exponentiation histories interleave fixed-base and plain bases in one process")
ASSUMPTIONS = ["libgmp / Python integers compute modular arithmetic correctly"]


def expect(op, a):
    P, Q = o.P, o.Q
    if op == "addp": return (a[0] + a[1]) % P
    if op == "mulp": return a[0] * a[1] % P
    if op == "modp": return a[0] % P
    if op == "addq": return (a[0] + a[1]) % Q
    if op == "subq": return (a[0] - a[1]) % Q
    if op == "apbc": return (a[0] + a[1] * a[2]) % Q
    if op == "subfromq": return (-a[0]) % Q
    if op == "qtop": return a[0]
    raise KeyError(op)


def offset_quirk(op, a):
    """the library's answer for operands above the modulus (off by one per such operand): its own unit
    tests require it (e.g. "add_mod_q (MAX_256 + MAX_256) % Q = 378"), so it is recorded, not repaired"""
    M, W = (o.P, 2**4096) if op == "addp" else (o.Q, 2**256)
    big = sum(x > M for x in a)
    if not big:
        return None
    if op == "subq":
        return (a[0] - a[1] - (W - M + 1)) % W % M if a[0] < a[1] else None
    s = a[0] + a[1]
    return (s + big * (W - M + 1)) % W % M if s >= W - 1 else None


def fold_quirk(vs):
    r = 0
    for v in vs:
        q = offset_quirk("addq", (r, v))
        r = (r + v) % o.Q if q is None else q
    return r


def judge(obs, ln, raw, want, op, args):
    f = raw.split("\t")
    key = ln
    obs.ev(op, key, sample="%s -> %s" % (ln[:200], raw[:80]))
    if f[0] != "ok":
        obs.bad("%s refused valid operands: %s" % (op, raw[:200]), sig=op, case=ln, want="%x" % want)
        return
    got = int(f[1], 16)
    if got == want:
        return
    if op == "subfromq" and want == 0 and got == o.Q:
        return      # negating zero may return q
    sig = op
    if op in ("addq", "addp", "subq") and got == offset_quirk(op, args):
        sig = op + "-unreduced-offset"      # listed in known-findings.jsonl, pinned by the test suite
    if op == "addqv" and got == fold_quirk(args):
        sig = "addq-unreduced-offset"
    obs.bad("%s: result differs from exact arithmetic" % op, sig=sig, case=ln, got="%x" % got, want="%x" % want)


OPS = [("addp", "pp"), ("mulp", "pp"), ("modp", "p"), ("addq", "qq"), ("subq", "qq"), ("apbc", "qqq"),
       ("subfromq", "q"), ("qtop", "q")]
QB = [0, 1, 2, o.Q - 2, o.Q - 1, o.Q, o.Q + 1, o.Q + 94, o.MAXQ - 1, o.MAXQ, 2**255, 2**64 - 1, 2**64, 188, 189, 190,
      (o.Q - 1) // 2, (o.Q + 1) // 2, 2**256 - 2**64, 2**256 - 2**128, 2**192]
PB = [0, 1, 2, o.P - 2, o.P - 1, o.P, o.P + 1, o.MAXP - 1, o.MAXP, o.MAXP - o.P, o.MAXP - o.P + 1, 2**4096 - o.P, 2**4095,
      (o.P - 1) // 2, (o.P + 1) // 2, 2**3840, o.Q, 189, o.MAXP - 189, o.MAXP - 188, o.P - 189]


def runbatch(obs, d, cases):
    """cases: operation, operands as sent, exact result, and the operands as numbers where they are sent otherwise"""
    lines = [line(k[0], *k[1]) for k in cases]
    for ln, r, k in zip(lines, d.each(lines), cases):
        judge(obs, ln, r, k[2], k[0] if k[0] != "self1" else k[1][0], k[3] if len(k) > 3 else k[1])


def simple(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    k = 0
    # exhaustive boundary pairs
    grid = [(op, (x, y)) for op in ("addq", "subq") for x in QB for y in QB]
    grid += [(op, (x, y)) for op in ("addp", "mulp") for x in PB for y in PB]
    grid += [("apbc", (x, y, z)) for x in QB for y in QB for z in QB]
    grid += [(op, (x,)) for op in ("subfromq", "qtop") for x in QB] + [("modp", (x,)) for x in PB]
    grid = grid[i::n]
    batch = []
    for op, args in grid:
        batch.append((op, args, expect(op, args)))
    for s in range(0, len(batch), 500):
        runbatch(obs, d, batch[s:s + 500])
    while k < count and not obs.full():
        batch = []
        for _ in range(400):
            op, sh = OPS[rng.randrange(len(OPS))]
            args = tuple(c.pval(rng) if ch == "p" else c.qval(rng) for ch in sh)
            r = rng.random()
            if len(args) == 2 and r < 0.15:     # correlated operands: sums and differences near the moduli
                M, W = (o.P, 4096) if sh[0] == "p" else (o.Q, 256)
                t = rng.choice([M, M - 1, M + 1, 2**W, 2**W - 1, 2 * M, 2**W - M])
                b = (t - args[0] + rng.randint(-2, 2))
                if 0 <= b < 2**W:
                    args = (args[0], b)
            elif len(args) == 2 and r < 0.2:
                args = (args[0], args[0])
                if op in ("addp", "mulp", "addq", "subq"):      # one object as both operands
                    batch.append(("self1", (op, args[0]), expect(op, args), args))
            elif op == "apbc" and r < 0.2:
                batch.append(("self1", (op, args[0]), expect(op, args[:1] * 3), args[:1] * 3))
            batch.append((op, args, expect(op, args)))
        runbatch(obs, d, batch)
        k += len(batch)
    # products and sums of many values, mixed widths
    batch = []
    for _ in range(count // 40 + 10):
        m = rng.choice([0, 1, 2, 2, 3, 3, 3, 4, 5, 9, 17, 33, 66, 130, rng.choice([257, 300])])
        toks, vals = [], []
        for _ in range(m):
            r = rng.random()
            if vals and r < 0.25:               # a value again, or the very same object again
                j = rng.choice([len(vals) - 1, rng.randrange(len(vals))])
                vals.append(vals[j]); toks.append(rng.choice(["=%x" % j, ("P%x" if vals[j] > o.MAXQ else "Q%x") % vals[j], "P%x" % vals[j]]))
            elif r < 0.65:
                vals.append(c.pval(rng) or 2); toks.append("P%x" % vals[-1])
            else:
                vals.append(c.qval(rng) or 2); toks.append("Q%x" % vals[-1])
        if vals and rng.random() < 0.05: vals[-1] = 0; toks[-1] = rng.choice(["P0", "Q0"])
        prod = 1
        for v in vals: prod = prod * v % o.P
        batch.append(("mulpv", tuple(toks), prod % o.P))
        m = rng.choice([1, 2, 2, 3, 3, 4, 5, 9, 17, 40, 66, 130, 300])
        vs, toks = [], []
        for _ in range(m):
            if vs and rng.random() < 0.25:
                j = rng.choice([len(vs) - 1, rng.randrange(len(vs))])
                vs.append(vs[j]); toks.append(rng.choice(["=%x" % j, vs[j]]))
            else:
                vs.append(c.qval(rng)); toks.append(vs[-1])
        batch.append(("addqv", tuple(toks), sum(vs) % o.Q, tuple(vs)))
    runbatch(obs, d, batch)
    d.close()


def powers(obs, rng, i, n, exe, count, full):
    """exponentiation histories: fixed-base tables built and reused, interleaved with plain bases"""
    d = c.Drv(exe)
    pool = [o.G, c.subgroup(rng), c.subgroup(rng), rng.randrange(2, o.P), 0, 1, o.P - 1, 2]
    # a base close to another one: distinguishes cache keys
    pool += [pool[1] + 1 if pool[1] + 1 < o.P else pool[1] - 1, pool[1] >> 8, pool[1] & (2**4088 - 1)]
    pool.append(c.limb_mix(rng, 4096) % o.P)
    pool.append(o.P + 5)          # unreduced base
    exps = [0, 1, 2, 255, 256, 257, 65535, 65536, o.Q - 1, o.Q - 2, o.Q, o.MAXQ, 1 << 248, 1 << 255, 0xff << 248,
            int("00ff" * 16, 16), int("ff00" * 16, 16)]
    cases = []
    for k in range(count):
        r = rng.random()
        b = rng.choice(pool) if r < 0.8 else c.pval(rng)
        e = rng.choice(exps) if rng.random() < 0.3 else c.qval(rng)
        if rng.random() < 0.15:   # single non-zero byte windows
            e = rng.randrange(1, 256) << (8 * rng.randrange(32))
        r = rng.random()
        if r < 0.45 and b in pool:
            cases.append(("powpq", ("1", b, e), o.powm(b, e)))
        elif r < 0.65:
            cases.append(("powpq", ("0", b, e), o.powm(b, e)))
        elif r < 0.85:
            cases.append(("gpowq", (e,), o.powm(o.G, e)))
        else:
            cases.append(("powpp", (rng.choice("01"), b, e), o.powm(b, e)))
    for k in range(full):
        b = rng.choice(pool) if rng.random() < 0.5 else c.pval(rng)
        nb = rng.choice([257, 300, 511, 512, 513, 600, 1024, 2048, 4000, 4095, 4096])
        e = rng.getrandbits(nb) | (1 << (nb - 1))
        if rng.random() < 0.2:
            e = rng.choice([o.P - 1, o.P - 2, o.P, o.MAXP, o.R, 1 << 512, 1 << 511, (1 << 512) - 1, (1 << 513) - 1])
        if rng.random() < 0.2:
            cases.append(("gpowp", (e,), o.powm(o.G, e)))
        else:
            cases.append(("powpp", (rng.choice("01"), b, e), o.powm(b, e)))
    rng.shuffle(cases)
    for s in range(0, len(cases), 100):
        runbatch(obs, d, cases[s:s + 100])
        if obs.full():
            break
    d.close()


def run(ck):
    exe = c.egdrv()
    ck.shards(simple, exe, ck.scale(8000, 120000))
    ck.shards(powers, exe, ck.scale(240, 3000), ck.scale(24, 300))
