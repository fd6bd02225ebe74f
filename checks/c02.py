"""C02: encodings, checked construction, comparison, bounds and subgroup membership of elements."""
import common as c
import oracle as o
from common import D, Died, LibEx, line

RULE = ("values: boundaries, every byte length 0..width+2, leading zero bytes, limb patterns, unreduced values; "
        "spellings: upper/lower/mixed case, odd digits, leading zeros and white space, signs, prefixes, foreign characters; "
        "each conversion is compared with Python's; distinct by (conversion, input)")
ASSUMPTIONS = ["Python integers convert correctly", "64 Miller-Rabin rounds decide primality of p and q"]


def vals(rng, which):
    W = 256 if which == "q" else 4096
    r = rng.random()
    if r < 0.25:
        nb = rng.randrange(0, W // 8 + 1)
        return rng.getrandbits(8 * nb) if nb else 0
    if r < 0.4:      # leading zero nibbles / bytes, trailing zeros
        return rng.getrandbits(rng.randrange(1, W)) << rng.randrange(0, 16) & ((1 << W) - 1)
    return c.qval(rng) if which == "q" else c.pval(rng)


def chk(obs, d, cmd, args, want, kind, relax=False):
    """want: int, list of fields, or None = must be refused"""
    ln = line(cmd, *args)
    raw = d.each([ln])[0]
    obs.ev(kind, ln, sample="%s -> %s" % (ln[:120], raw[:80]))
    f = raw.split("\t")
    if want is None:
        if f[0] != "ex":
            obs.bad("%s: accepted a value that must be refused: %s" % (kind, ln[:300]), sig=kind, case=ln, got=raw)
        return
    if f[0] != "ok":
        obs.bad("%s: refused or failed: %s -> %s" % (kind, ln[:300], raw[:300]), sig=kind, case=ln, got=raw)
        return
    if isinstance(want, list):
        if f[1:] != want:
            obs.bad("%s: wrong answer for %s: %s, expected %s" % (kind, ln[:300], f[1:], want), sig=kind, case=ln)
    elif int(f[1], 16) != want:
        obs.bad("%s: wrong value for %s" % (kind, ln[:300]), sig=kind, case=ln, got=raw, want="%x" % want)


def spell(rng, v):
    s = "%x" % v
    r = rng.random()
    if r < 0.3: s = s.upper()
    elif r < 0.5: s = "".join(rng.choice([x.upper(), x]) for x in s)
    if rng.random() < 0.4: s = "0" * rng.randrange(1, 9) + s
    if rng.random() < 0.1: s = rng.choice(" \n\r\t\f\v") * rng.randrange(1, 3) + s
    return s


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for which, M, W, MAXB in (("q", o.Q, 256, 32), ("p", o.P, 4096, 512)):
        nl = W // 64
        k = count if which == "q" else count // 3
        edge = [0, 1, 15, 16, 255, 256, M - 1, M, M + 1, 2**W - 1, 2**(W - 8) - 1, 2**(W - 8), 2**(W - 1)]
        for j in range(k):
            if obs.full():
                break
            v = edge[j] if j < len(edge) else vals(rng, which)
            # out
            chk(obs, d, which + "_enc", [v], [o.hx(v), v.to_bytes(MAXB, "big").hex(), o.hx(v), str(nl)], which + " to hex/bytes")
            # in: checked accepts 0..modulus, refuses above; unchecked accepts the whole width
            u = rng.random() < 0.4
            ok = v if (u or v <= M) else None
            chk(obs, d, which + "_fromhex", [o.hx(v).encode(), u], ok, which + " from own hex")
            chk(obs, d, which + "_fromhex", [spell(rng, v).encode(), u], ok, which + " from hex spelling")
            nb = rng.randrange((v.bit_length() + 7) // 8 or 1, MAXB + 1)
            b = v.to_bytes(nb, "big")
            chk(obs, d, which + rng.choice(["_frombytes", "_frombytesptr"]), [b, u], ok, which + " from bytes")
            limbs = [(v >> (64 * t)) & (2**64 - 1) for t in range(nl)]
            chk(obs, d, which + "_fromarr", [",".join("%x" % x for x in limbs), u], ok, which + " from limb array")
            cut = limbs
            while cut and cut[-1] == 0 and rng.random() < 0.9:
                cut = cut[:-1]
            chk(obs, d, which + "_fromvec", [",".join("%x" % x for x in cut), u], ok, which + " from limb vector")
            # too long
            if j % 3 == 0:
                e = rng.randrange(1, 20)
                big = bytes([rng.randrange(1, 256)]) + rng.randbytes(MAXB + e - 1)
                uu = rng.random() < 0.5
                chk(obs, d, which + "_frombytes", [big, uu], None, which + " bytes too long")
                chk(obs, d, which + "_fromhex", [big.hex().encode(), uu], None, which + " hex too long")
                chk(obs, d, which + "_fromvec", [",".join("%x" % rng.getrandbits(64) for _ in range(nl + e)), uu], None,
                    which + " too many limbs")
            # not hexadecimal
            if j % 2 == 0:
                s = list(spell(rng, v))
                pos = rng.randrange(len(s))
                bad = rng.choice("gGzZxX-+.,_ \t:/@`\x00\x7f\xff")
                # white space and zeros in front are trimmed, so place the foreign character after a digit 1-f
                first = next((t for t, ch in enumerate(s) if ch not in "0 \n\r\t\f\v"), len(s))
                if bad in " \t" and pos <= first:
                    bad = "g"
                if rng.random() < 0.5: s[pos] = bad
                else: s.insert(pos, bad)
                t = "".join(s).encode("latin-1")
                chk(obs, d, which + "_fromhex", [t, rng.random() < 0.5], None, which + " not hexadecimal")
            # comparison
            w = rng.choice([v, vals(rng, which), v ^ (1 << rng.randrange(W)), max(0, v - 1), min(2**W - 1, v + 1), M])
            chk(obs, d, which + "_cmp", [v, w], [str(int(x)) for x in (v == w, v != w, v < w, w < v)], which + " comparison")
            chk(obs, d, which + "_bounds", [v], [str(int(0 < v < M))], which + " in bounds")
            u64 = rng.choice([0, 1, 2**64 - 1, rng.getrandbits(64), 2**rng.randrange(64)])
            chk(obs, d, which + "_fromu64", [D(u64), rng.random() < 0.5], u64, which + " from integer")
        for s in (b"", b" ", b"\n\t "):
            chk(obs, d, which + "_fromhex", [s, False], None, which + " empty")
            chk(obs, d, which + "_fromhex", [s, True], None, which + " empty")
        for s in (b"0", b"00", b"000", b" 0", b"0000000000000000000"):
            chk(obs, d, which + "_fromhex", [s, False], 0, which + " zero spelling")
            chk(obs, d, which + "_fromhex", [s, True], 0, which + " zero spelling")
    # subgroup membership
    for j in range(count // 10 + 4):
        r = rng.random()
        if r < 0.4: v, want = c.subgroup(rng), True
        elif r < 0.6: v = o.P - c.subgroup(rng); want = o.residue(v)
        elif r < 0.7: v = c.subgroup(rng) + o.P; want = False if v <= o.MAXP else None
        else: v = rng.choice([0, 1, o.P - 1, o.P, o.P + 1, o.G, c.pval(rng), rng.randrange(o.P)]); want = o.residue(v)
        if want is None or v > o.MAXP:
            continue
        chk(obs, d, "p_residue", [rng.choice("01"), v], [str(int(want))], "subgroup membership")
    # one more than the subgroup: an unreduced representative of a member
    for v in (o.P + 1, o.P, 0, 1, o.P - 1, o.G):
        chk(obs, d, "p_residue", ["0", v], [str(int(o.residue(v)))], "subgroup membership")
    d.close()


def mr(n, rng, k=64):
    s, t = 0, n - 1
    while t % 2 == 0:
        t //= 2; s += 1
    for _ in range(k):
        a = rng.randrange(2, n - 1)
        x = o.powm(a, t, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def constants(obs, rng, exe):
    d = c.Drv(exe)
    f = [int(x, 16) for x in d.call("const")]
    d.close()
    p, q, r, g = f[:4]
    facts = {"q = 2^256-189": q == 2**256 - 189, "p-1 = q*r": p - 1 == q * r, "g = 2^r": g == o.powm(2, r, p),
             "g^q = 1": o.powm(g, q, p) == 1 and g != 1, "p is 4096 bits": p.bit_length() == 4096,
             "p top and bottom 256 bits set": p >> 3840 == 2**256 - 1 and p & (2**256 - 1) == 2**256 - 1,
             "p prime": p % 2 == 1 and mr(p, rng, 8), "q prime": mr(q, rng),
             "zero one two mod p": f[4:7] == [0, 1, 2], "zero one two mod q": f[7:10] == [0, 1, 2],
             "p is the published prime": p == o.P}
    for k, v in facts.items():
        obs.ev("constant relation", k, sample=k)
        if not v:
            obs.bad("constant relation fails: " + k, sig="const:" + k)


def run(ck):
    exe = c.egdrv()
    ck.run(constants, exe)
    ck.shards(work, exe, ck.scale(3000, 40000))
