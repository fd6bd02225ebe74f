"""C03: canonical hashing, nonce sequences and HMAC against hashlib/hmac."""
import common as c
import oracle as o
from common import D, Died, LibEx, line
from oracle import PE, QE

RULE = ("hash inputs: lists of 0..8 elements over all element kinds (null, integers, strings, byte vectors, p and q elements, "
        "hashable objects, and vectors of each), by pointer, reference and const reference, with boundary values and message "
        "lengths around SHA-256 block edges; nonce histories: random interleavings of get, get with header, ranges and next; "
        "distinct by input; oracle: hashlib/hmac over the canonical text")
ASSUMPTIONS = ["hashlib/hmac implement SHA-256 and HMAC correctly"]


def rstr(rng):
    r = rng.random()
    if r < 0.15: return b""
    if r < 0.25: return rng.choice([b"null", b"0", b"|", b"00", b"a|b", b"\0", b"null|null", "é漢字".encode()])
    if r < 0.4: return rng.randbytes(rng.choice([1, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 127, 128, 129, 1000, 65537])).replace(b"\n", b"x")
    return bytes(rng.randrange(32, 127) for _ in range(rng.randrange(1, 60)))


def u64(rng):
    return rng.choice([0, 1, 9, 10, 2**63, 2**64 - 1, 2**32, rng.getrandbits(64), rng.randrange(100)])


def elem(rng, depth=0):
    """(token, python value for the oracle)"""
    k = rng.choice(["N", "P", "Q", "Q", "H", "U", "U", "S", "S", "B", "VP", "VQ", "VH", "VU", "VS"])
    m = rng.choice("prc")
    if k == "N": return "N", None
    if k == "P": v = c.pval(rng); return "P%s:%x" % (m, v), PE(v)
    if k == "Q": v = c.qval(rng); return "Q%s:%x" % (m, v), QE(v)
    if k == "H": v = c.qval(rng, False); return "H%s:%x" % (m, v), QE(v)
    if k == "U": v = u64(rng); return "U:%d" % v, v
    if k == "S": v = rstr(rng); return "S:" + v.hex(), v
    if k == "B":
        v = rng.choice([b"", b"\0", b"\0\0\1", rng.randbytes(rng.randrange(1, 70)), b"\0" * rng.randrange(5) + rng.randbytes(4)])
        return "B:" + v.hex(), bytearray(v)
    n = rng.choice([0, 1, 2, 3, 7])
    if k == "VP": v = [c.pval(rng) for _ in range(n)]; return "VP%s:%s" % (m, ",".join("%x" % x for x in v)), [PE(x) for x in v]
    if k == "VQ": v = [c.qval(rng) for _ in range(n)]; return "VQ%s:%s" % (m, ",".join("%x" % x for x in v)), [QE(x) for x in v]
    if k == "VH": v = [c.qval(rng, False) for _ in range(n)]; return "VH%s:%s" % (m, ",".join("%x" % x for x in v)), [QE(x) for x in v]
    if k == "VU": v = [u64(rng) for _ in range(n)]; return "VU:" + ",".join(map(str, v)), v
    v = [rstr(rng) for _ in range(n)]
    return "VS:" + ",".join(x.hex() or "-" for x in v), v


def batch(obs, d, cases):
    """cases: (kind, line, [expected fields])"""
    res = d.each([x[1] for x in cases])
    for (kind, ln, want), raw in zip(cases, res):
        obs.ev(kind, ln, sample="%s -> %s" % (ln[:160], raw[:80]))
        f = raw.split("\t")
        if f[0] != "ok":
            obs.bad("%s failed: %s -> %s" % (kind, ln[:200], raw[:200]), sig=kind, case=ln)
        elif f[1:] != want:
            obs.bad("%s differs from the canonical value: %s" % (kind, ln[:200]), sig=kind, case=ln, got=raw, want=want)


def q64(v):
    return "%064x" % v


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    cases = []
    for k in range(count):
        m = rng.choice([0, 1, 1, 2, 2, 3, 4, 8])
        es = [elem(rng) for _ in range(m)]
        cases.append(("hash", line("hash", *[e[0] for e in es]), [q64(o.H(*[e[1] for e in es]))]))
        e = elem(rng)
        cases.append(("hash of one", line("hash1", e[0]), [q64(o.H(e[1]))]))
        # nonces
        seed = c.qval(rng, False)
        r = rng.random()
        if r < 0.3: hd, hv, has = "-", None, False
        elif r < 0.6: s = rstr(rng); hd, hv, has = "S:" + s.hex(), s, True
        elif r < 0.8: v = c.qval(rng, False); hd, hv, has = "Q:%x" % v, QE(v), True
        else: v = c.pval(rng, False); hd, hv, has = "P:%x" % v, PE(v), True
        ref = o.Nonces(seed, hv, has)
        ops, want = [], []
        for _ in range(rng.randrange(1, 8)):
            r = rng.random()
            idx = rng.choice([0, 1, 2, rng.randrange(100), 2**32, 2**64 - 2])
            if r < 0.35: ops.append("g:%d" % idx); want.append(ref.get(idx))
            elif r < 0.55:
                h = rstr(rng); ops.append("gh:%d:%s" % (idx, h.hex())); want.append(ref.get(idx, h, True))
            elif r < 0.7:
                cnt = rng.randrange(0, 5)
                if r < 0.65: idx = rng.choice([idx % 1000, 2**32 - 2, 2**32, 2**40, 2**63 - 1, 2**64 - 10])
                else: idx = idx % 1000
                ops.append("r:%d:%d" % (idx, cnt))
                want += [ref.get(idx + t) for t in range(cnt)]
            else: ops.append("n"); want.append(ref.next())
        cases.append(("nonce history", line("nonces", seed, hd, *ops), [q64(x) for x in want]))
        # hmac
        kl = rng.choice([0, 1, 16, 31, 32, 33, 63, 64, 65, 128, 200, rng.randrange(300)])
        ml = rng.choice([0, 1, 32, 47, 48, 55, 56, 63, 64, 65, 512, 544, rng.randrange(1500)])
        key, msg = rng.randbytes(kl), rng.randbytes(ml)
        ln_, st = rng.choice([0, 0, 1, 256, 512, 2**32 - 1, rng.getrandbits(32)]), rng.choice([0, 1, 255, 256, 2**32 - 1, rng.getrandbits(32)])
        cases.append(("hmac", line("hmac", key, msg, D(ln_), D(st)), [o.eg_hmac(key, msg, ln_, st).hex()]))
        if len(cases) >= 300:
            batch(obs, d, cases)
            cases = []
            if obs.full():
                break
    batch(obs, d, cases)
    d.close()


def distinctness(obs, rng, exe):
    """different inputs of one shape hash to different values (no collisions among what was observed)"""
    d = c.Drv(exe)
    lines, seen = [], {}
    for s in range(400):
        lines.append(line("hash", "U:%d" % (s + 1), "S:" + (b"x%d" % (s % 7)).hex()))
        lines.append(line("hash", "S:" + (b"x%d" % (s % 7)).hex(), "U:%d" % (s + 1)))
    for ln, r in zip(lines, d.raw(lines)):
        obs.ev("order sensitivity", ln)
        if r in seen and seen[r] != ln:
            obs.bad("two inputs hash to one value", case=ln, other=seen[r])
        seen[r] = ln
    d.close()


def run(ck):
    exe = c.egdrv()
    ck.run(distinctness, exe)
    ck.shards(work, exe, ck.scale(40000, 300000))
