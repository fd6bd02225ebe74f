"""C05: hashed ElGamal: exact construction, round trip, and rejection of every modification."""
import common as c
import oracle as o
from common import D, line

RULE = ("messages of every length class around the block and padding limits with zero-rich and random content, padded and unpadded, "
        "truncation allowed or not; for each ciphertext single-bit and structural changes of pad, data, tag, seed and secret, and "
        "authenticated forgeries with wrong padding; distinct by input; oracle: reference construction over hmac")
ASSUMPTIONS = ["hmac/hashlib and libgmp are correct", "an HMAC-SHA-256 collision is not hit by chance"]


def p(v): return "%01024x" % v


def msg(rng, ln):
    k = rng.random()
    if k < 0.2: return bytes(ln)
    if k < 0.35: return bytes(rng.choice([0, 0, 0, 255]) for _ in range(ln))
    if k < 0.5: return rng.randbytes(max(0, ln - 3)) + bytes(min(3, ln))
    if k < 0.6: return b"\xff" * ln
    return rng.randbytes(ln)


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full():
            break
        s = rng.choice([2, o.Q - 1, rng.randrange(2, o.Q), rng.randrange(2, o.Q)])
        K = o.powm(o.G, s)
        r = rng.choice([1, o.Q - 1, rng.randrange(1, o.Q), rng.randrange(1, o.Q), rng.randrange(1, o.Q)])
        seed = c.qval(rng, False)
        maxlen = rng.choice([0, 510, 510, 510])
        if maxlen:
            ln = rng.choice([0, 1, 2, 29, 30, 31, 32, 33, 255, 256, 257, 478, 479, 508, 509, 510, 511, 512, 513, 700, 1022, 66000, rng.randrange(511), rng.randrange(511)])
        else:
            ln = rng.choice([32, 64, 96, 512, 32 * 255, 32 * 256, 32 * 300, 1, 31, 33, 40, 32 * rng.randrange(1, 20)])
        m = msg(rng, ln)
        trunc = rng.random() < 0.5
        ln_ = line("henc", m, r, K, seed, D(maxlen), trunc)
        raw = d.each([ln_])[0]
        f = raw.split("\t")
        block = o.hashed_pad(m, maxlen, trunc)
        obs.ev("encrypt" if block is not None else "refused message", ln_, sample=ln_[:100] + " -> " + raw[:60])
        if block is None:
            if f[0] != "ex":
                obs.bad("message of %d bytes accepted (max %d, truncation %s)" % (ln, maxlen, trunc), sig="accept", case=ln_, got=raw)
            continue
        a, data, mac = o.hashed_enc(block, r, K, seed)
        want = [p(a), data.hex(), mac.hex(), "%064x" % o.H(o.PE(a), bytearray(data), bytearray(mac))]
        if f[1:] != want or f[0] != "ok":
            obs.bad("ciphertext of a %d-byte message differs from the specified construction (max %d)" % (ln, maxlen), sig="construct", case=ln_, got=raw, want=want)
            continue
        plain = m if not maxlen else m[:maxlen]
        cases = [("round trip", line("hdec", a, data, mac, s, seed, bool(maxlen)), plain)]
        if maxlen:
            cases.append(("decrypt without looking for padding", line("hdec", a, data, mac, s, seed, False), block))

        def bit(b):
            k = rng.randrange(len(b) * 8)
            x = bytearray(b); x[k // 8] ^= 1 << (k % 8)
            return bytes(x)
        muts = [("data bit", a, bit(data), mac, s, seed), ("data bit", a, bit(data), mac, s, seed), ("tag bit", a, data, bit(mac), s, seed), ("tag bit", a, data, bit(mac), s, seed),
                ("first data bit", a, bytes([data[0] ^ 128]) + data[1:], mac, s, seed), ("last data bit", a, data[:-1] + bytes([data[-1] ^ 1]), mac, s, seed),
                ("last tag bit", a, data, mac[:-1] + bytes([mac[-1] ^ 1]), s, seed), ("first tag bit", a, data, bytes([mac[0] ^ 1]) + mac[1:], s, seed),
                ("pad bit", a ^ (1 << rng.randrange(4096)), data, mac, s, seed), ("pad low bit", a ^ 1, data, mac, s, seed),
                ("negated pad", o.P - a, data, mac, s, seed),
                ("seed bit", a, data, mac, s, seed ^ (1 << rng.randrange(256))), ("other secret", a, data, mac, rng.randrange(2, o.Q), seed),
                ("shortened data", a, data[:-32], mac, s, seed), ("shortened data by a byte", a, data[:-1], mac, s, seed),
                ("extended data", a, data + bytes(32), mac, s, seed), ("empty data", a, b"", mac, s, seed),
                ("short tag", a, data, mac[:-1], s, seed), ("empty tag", a, data, b"", s, seed), ("long tag", a, data, mac + b"\0", s, seed), ("half tag", a, data, mac[:16], s, seed)]
        if len(data) >= 64:
            muts.append(("swapped blocks", a, data[32:64] + data[:32] + data[64:], mac, s, seed))
            # change in the middle compensated elsewhere
            x = bytearray(data); y = rng.randrange(1, 256); u, v = rng.sample(range(len(x)), 2); x[u] ^= y; x[v] ^= y
            muts.append(("two bytes changed", a, bytes(x), mac, s, seed))
        if o.P <= a + o.P <= o.MAXP:
            muts.append(("pad plus p", a + o.P, data, mac, s, seed))
        for k, A, Dt, M, S, E in muts:
            if (A, Dt, M, S, E) == (a, data, mac, s, seed):
                continue
            if k == "seed bit" and E % o.Q == seed:
                continue
            cases.append((k, line("hdec", A, Dt, M, S, E, bool(maxlen)), None))
        # authenticated but wrongly padded
        if maxlen:
            bads = [(b"\x01\xff" + rng.randbytes(510)), b"\xff\xff" + bytes(510), b"\x00\x01" + bytes(509) + b"\x01", b"\x00\x10" + b"a" * 494 + bytes(15) + b"x",
                    b"\x00\x10" + b"a" * 494 + b"\x80" + bytes(15), b"\x02\x00" + bytes(510)]
            for bl in rng.sample(bads, 3):
                plen = int.from_bytes(bl[:2], "big")
                ok = plen <= 510 and not any(bl[512 - plen:] if plen else b"")
                A, Dt, M = o.hashed_enc(bl, r, K, seed)
                cases.append(("forged padding", line("hdec", A, Dt, M, s, seed, True), bl[2:512 - plen] if ok else None))
        for (k, l2, exp), rr in zip(cases, d.each([x[1] for x in cases])):
            obs.ev(k, l2, sample=rr[:100])
            g = rr.split("\t")
            if exp is None:
                if g[0] != "ex":
                    obs.bad("decryption accepted a ciphertext with %s (message %d bytes, max %d)" % (k, ln, maxlen), sig=k, case=l2, got=rr)
            elif g != ["ok", exp.hex()]:
                obs.bad("%s of a %d-byte message (max %d, truncation %s) returned something else" % (k, ln, maxlen, trunc), sig=k, case=l2, got=rr, want=exp.hex())
        e2 = rng.choice([(a, data, mac), (a ^ 1, data, mac), (a, bit(data), mac), (a, data, bit(mac))])
        rr = d.each([line("heq", a, data, mac, *e2)])[0]
        e = e2 == (a, data, mac)
        obs.ev("equality", str(e2))
        if rr != "ok\t%d\t%d" % (e, not e):
            obs.bad("equality of hashed ciphertexts is wrong", sig="eq", got=rr)
    d.close()


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(270, 2500))
