"""C22: freed memory holds no secret values: every block is recorded as it is freed and searched afterwards."""
import json
import common as c
import elect as e
import oracle as o
from oracle import H, PE, QE, Q, G, P, powm

RULE = ("lives of elements and key pairs (copy, clone, assign, overwrite, convert, arithmetic, exceptions), encryption, decryption, hashed encryption "
        "and decryption (also of tampered and ill-padded ciphertexts), proofs, nonce sequences, random draws, precomputed values, whole ballots, mediators "
        "and compact ballots, in the plain build with every freed heap block recorded at the moment of free(); all secrets of the step (given, derived by "
        "the oracle from given ones, or solved from the published proof) are searched in binary form, both byte orders, at every offset; a planted "
        "leftover must be found at the start of every session; distinct by (step, secret)")
ASSUMPTIONS = ["secrets are searched in binary form in heap memory; text forms, registers and the stack are not covered",
               "8 consecutive bytes of a secret do not occur elsewhere by chance"]
I = e.I


class Mon:
    def __init__(self, obs, exe):
        self.obs, self.exe = obs, exe
        self.d = c.Drv(exe)
        self.blocks = 0

    def on(self): self.d.call("hm_on")

    def off(self, name, secrets, case):
        n, size = self.d.call("hm_off")
        self.blocks += int(n)
        self.obs.note("freed blocks searched", int(n))
        self.obs.note("freed bytes searched", int(size))
        vals, names = [], []
        for what, v in secrets:
            b = v if isinstance(v, bytes) else v.to_bytes(32 if v < 2**256 else 512, "big")
            if len(set(b)) < 6: continue
            vals.append(b.hex()); names.append(what)
            self.obs.ev(name + ": " + what, b.hex(), sample="%s block(s)" % n)
        hits = {}
        for k in range(0, len(vals), 40):
            for h in self.d.call("hm_scan", *vals[k:k + 40]):
                f = h.split(",")
                hits.setdefault((names[k + int(f[0])], f[3]), []).append(h)
        for (what, size), l in hits.items():
            self.obs.bad("%s: %d freed block(s) of %s bytes still hold the %s" % (name, len(l), size, what), sig=name + "/" + what, hit=l[0],
                         exe=self.exe, base=self.d.call("hm_base")[0], **case)

    def step(self, name, secrets, *line, expect=None, **case):
        """run one command under the monitor; secrets may depend on the answer"""
        self.on()
        r, err = None, None
        try:
            r = self.d.call(*line)
        except c.LibEx as ex:
            err = str(ex)
        s = secrets(r) if callable(secrets) else secrets
        case["line"] = " ".join(x.hex() if isinstance(x, bytes) else "%X" % x if isinstance(x, int) and x > 2**64 else str(x) for x in line)[:3000]
        self.off(name + (" (refused)" if err else ""), s, case)
        if expect == "ok" and err: self.obs.bad("%s refused: %s" % (name, err), sig=name, **case)
        return r

    def control(self, rng):
        v = rng.getrandbits(256) | 1 << 255
        for size, at, b in ((64, 5, v.to_bytes(32, "big")), (600, 77, v.to_bytes(32, "little")), (32, 8, v.to_bytes(32, "big")[3:12])):
            self.on()
            self.d.call("hm_plant", str(size), str(at), b)
            self.d.call("hm_off")
            if not [h for h in self.d.call("hm_scan", v.to_bytes(32, "big").hex())]:
                raise RuntimeError("the monitor does not see a planted leftover")
            self.obs.ev("control: planted leftover found", v)
        self.on()
        self.d.call("hm_plant", "64", "0", bytes(32))
        self.d.call("hm_off")
        if self.d.call("hm_scan", v.to_bytes(32, "big").hex()): raise RuntimeError("the monitor sees what is not there")


def rq(rng): return rng.choice([rng.randrange(1, Q), rng.randrange(1, Q), rng.randrange(2**200, 2**250), Q - 1 - rng.getrandbits(180),
                                c.limb_mix(rng, 256) % Q or 3])


def values(rng, mon, obs, K, fb):
    q = rq(rng)
    if rng.random() < 0.2: q = o.MAXQ - rng.randrange(189)
    ops = [rng.choice(["clone", "copy", "assign", "hexed", "add", "sub"]) for _ in range(rng.randint(0, 5))] + rng.choice([[], ["throw"], ["overwrite"]])
    mon.step("element mod q", [("element", q)] + ([("element", q % Q)] if q >= Q else []), "q_life", q, *ops)
    p = rng.choice([c.pval(rng), powm(G, rq(rng)), rng.randrange(P)])
    ops = [rng.choice(["clone", "copy", "assign", "hexed", "mul"]) for _ in range(rng.randint(0, 5))] + rng.choice([[], ["throw"], ["overwrite"]])
    mon.step("element mod p", [("element", p)], "p_life", p, *ops)
    s = rq(rng)
    mon.step("key pair", [("secret key", s)], "key_life", s, rng.random() < 0.3, *["copy"] * rng.randrange(3), *rng.choice([[], ["throw"]]))
    x, y, z = rq(rng), rq(rng), rq(rng)
    sec = [("operand", v) for v in (x, y, z)]
    mon.step("arithmetic", sec + [("result", (x + y) % Q)], "addq", x, y)
    mon.step("arithmetic", sec + [("result", (x - y) % Q)], "subq", x, y)
    mon.step("arithmetic", sec + [("result", (x + y * z) % Q), ("product", y * z % Q)], "apbc", x, y, z)
    mon.step("arithmetic", [("operand", x), ("result", Q - x)], "subfromq", x)
    mon.step("exponentiation", [("exponent", x)], "powpq", fb, K, x)
    mon.step("exponentiation", [("exponent", x)], "gpowq", x)
    mon.step("hashing", [("hashed element", x), ("hash", H(QE(x)))], "hash", "Q:%X" % x)
    mon.step("nonce sequence", lambda r: [("seed", x)] + [("nonce", I(v)) for v in r or ()], "nonces", x, rng.choice(["-", "Q:%X" % y, "S:" + b"head".hex()]),
             "g:%d" % rng.randrange(100), "g:0", "r:%d:3" % rng.randrange(9))
    mon.step("random draw", lambda r: [("drawn value", I(v)) for v in r], "rand_q", "3", expect="ok")
    mon.step("random draw", lambda r: [("drawn value", I(v)) for v in r], "rand_p", "1", expect="ok")
    mon.step("conversion", [("value", x)], "q_fromhex", ("%064X" % x).encode(), False)


def crypto(rng, mon, obs, s, K, fb):
    r, m = rq(rng), rng.choice([0, 1, 1, 2, 7])
    shared = powm(K, r)
    mon.step("encryption", [("nonce", r)] + ([("shared value", shared)] if m else []), "enc", str(m), r, fb, K, expect="ok")
    a, b = o.enc(m, r, K)
    mon.step("decryption", [("secret key", s), ("shared value", shared)] if m else [("secret key", s)], "dec", a, b, s)
    m = rng.randrange(2)
    a, b = o.enc(m, r, K)
    q = rq(rng)
    sd = rng.choice(["-", "%X" % rq(rng)])
    def dsecrets(x):
        # a proof publishes a0 b0 a1 b1 c0 c1 c v0 v1; the honest branch's commitment exponent is v - c*r
        v = [I(y) for y in x[:9]]
        sec = [("nonce", r), ("commitment exponent", (v[7 + m] - v[4 + m] * r) % Q)]
        if powm(G, sec[1][1]) != v[2 * m]: obs.note("commitment exponent not solved")
        if sd != "-": sec.append(("seed", int(sd, 16)))
        return sec
    mon.step("selection proof", dsecrets, "dmake", a, b, r, fb, K, q, sd, str(m), expect="ok")
    seed, L = rq(rng), rng.randrange(1, 9)
    a, b = o.enc(L, r, K)
    mon.step("limit proof", lambda x: [("nonce", r), ("seed", seed), ("commitment exponent", (I(x[3]) - I(x[2]) * r) % Q)], "cmake", a, b, r, fb, K,
             seed, q, str(L), expect="ok")
    msg = bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 400)))
    r = rq(rng)
    al, be, seed = powm(G, r), powm(K, r), rq(rng)
    block = o.hashed_pad(msg, 510, False)
    mk, ks = o.hashed_keys(al, be, seed, len(block) // 32)
    sec = [("nonce", r), ("shared value", be), ("session key", H(PE(al), PE(be))), ("tag key", mk)] + \
        [("keystream", ks[i:i + 32]) for i in range(0, len(ks), 32)]
    # where the padded message is zero the ciphertext itself is the keystream
    zero = [i for i in range(0, len(ks), 32) if any(block[j:j + 8] == bytes(8) for j in range(i, min(i + 32, len(block) - 7)))]
    sec_open = [x for n, x in enumerate(sec) if n < 4 or (n - 4) * 32 not in zero]
    mon.step("hashed encryption", sec_open, "henc", msg, r, K, seed, "510", False, expect="ok")
    ad, dd, dm = o.hashed_enc(block, r, K, seed)
    sec2 = [("secret key", s)] + sec_open[1:]
    mon.step("hashed decryption", sec2, "hdec", ad, dd, dm, s, seed, True, expect="ok")
    t = bytearray(dd); t[rng.randrange(len(t))] ^= 1 << rng.randrange(8)
    mon.step("hashed decryption", [x for x in sec2 if x[0] != "keystream"], "hdec", ad, bytes(t), dm, s, seed, True)
    mon.step("hashed decryption", [x for x in sec2 if x[0] != "keystream"], "hdec", ad, dd, bytes(32), s, seed, True)
    # a tag that fits over a padding that does not
    bad = b"\xff\xff" + block[2:]
    ad, dd, dm = o.hashed_enc(bad, r, K, seed)
    mon.step("hashed decryption", sec2, "hdec", ad, dd, dm, s, seed, True)


def precomputed(rng, mon, obs, K, fb):
    d = mon.d
    mon.on()
    d.call("pre_init", "3")
    d.call("pre_fill", fb, K)
    sec = []
    for _ in range(2):
        r = d.call("pre_triple")
        if r[0] == "1": sec += [("exponent", I(r[1])), ("shared value", I(r[3]))]
    r = d.call("pre_tq")
    if r[0] == "1": sec += [("exponent", I(r[1])), ("shared value", I(r[3])), ("exponent", I(r[4])), ("shared value", I(r[6])), ("exponent", I(r[7])), ("exponent", I(r[8]))]
    d.call("pre_empty")
    d.call("pre_init", "0")
    d.call("pre_empty")
    mon.off("precomputed values", sec, {})
    # solved from a proof made with precomputed values
    q, m = rq(rng), rng.randrange(2)
    def solved(x):
        r, v = I(x[0]), [I(y) for y in x[3:12]]
        u = (v[7 + m] - v[4 + m] * r) % Q
        if powm(G, u) != v[2 * m]: obs.note("commitment exponent not solved")
        return [("nonce", r), ("commitment exponent", u)]
    mon.step("selection proof, precomputed", solved, "dmake_pre", K, q, str(m), expect="ok")


def ballots(rng, mon, obs):
    d = mon.d
    m = e.manifest(rng, maxc=2, maxs=2, seats=2)
    ss = e.Session(d, rng, m)
    b = e.ballot(rng, m)
    case = dict(manifest=e.jdump(m), ballot=e.jdump(b))
    nonce = rq(rng)

    def secrets(cb, nonce):
        sec = [("ballot nonce", nonce), ("ballot nonce seed", H(QE(ss.mh), b["id"], QE(nonce)))]
        agg = 0
        for k, x in zip(cb["contests"], e.expect(m, b)):
            cn, cp, sn, ed = e.nonces(m, ss.mh, b["id"], nonce, x["contest"])
            sec += [("contest nonce", cn), ("contest proof seed", cp), ("extra data nonce", ed), ("extra data shared value", powm(ss.K, ed)),
                    ("aggregate nonce", sum(sn) % Q)]
            for s, w, v in zip(k["sels"], sn, x["votes"]):
                sec.append(("selection nonce", w))
                if v: sec.append(("selection shared value", powm(ss.K, w)))
                pr = s["proof"]
                u = (I(pr[7 + v]) - I(pr[4 + v]) * w) % Q
                if powm(G, u) == I(pr[2 * v]): sec.append(("commitment exponent", u))
                else: obs.note("commitment exponent not solved")
        return sec
    how = rng.choice(["given", "given", "drawn", "mediator", "compact"])
    mon.on()
    ss.load(b)
    if how == "given": cb = ss.encrypt(nonce=nonce, verify=rng.random() < 0.3)
    elif how == "drawn": cb = ss.encrypt(verify=False); nonce = I(cb["nonce"])
    else:
        d.call("med_make", "med", ss.int, ss.ctx, ss.dev)
        if how == "mediator":
            d.call("med_encrypt", "med", "cb", "pb", False)
        else:
            d.call("med_compact", "med", "cc", "pb", False)
            d.call("cc_expand", "cb", "cc", ss.int, ss.ctx)
        cb = ss.dump("cb", "cb"); nonce = I(cb["nonce"])
    if rng.random() < 0.5:
        f = rng.choice("jbm")
        d.call("ser", "cb", "cb", f)
        d.call("sb_from", "sb", "cb", rng.choice("12"))
        d.call("ser", "sb", "sb", f)
    d.call("dropall")
    mon.off("ballot (%s)" % how, secrets(cb, nonce), case)


def work(obs, rng, i, n, exe, count, nb):
    mon = Mon(obs, exe)
    mon.control(rng)
    for it in range(count):
        if obs.full(): break
        try:
            s = rq(rng)
            K, fb = powm(G, s), rng.random() < 0.25
            values(rng, mon, obs, K, fb)
            crypto(rng, mon, obs, s, K, fb)
            if it % 2 == 0: precomputed(rng, mon, obs, K, fb)
            if it < nb: ballots(rng, mon, obs)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died")
            mon.d.restart()
    mon.d.close()


def run(ck):
    exe = c.egheap()
    ck.shards(work, exe, ck.scale(32, 300), ck.scale(10, 120))
