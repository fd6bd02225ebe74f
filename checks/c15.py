"""C15: secrets of recorded encryptions searched in everything that is published, logged or reported."""
import base64, copy, json, os, re, tempfile
import common as c
import elect as e
import oracle as o
from oracle import H, QE, Q, P, G, powm

RULE = ("random elections and ballots (over- and undervotes, write-ins, refused ballots, given and drawn nonces); every nonce, shared secret, proof "
        "nonce, key and write-in of each recorded encryption is searched, whole and in 64-bit pieces, as hexadecimal, raw bytes in both orders, "
        "decimal and base64, in every published form of the ballot (JSON, BSON, MessagePack; encrypted, submitted in each state), in the log "
        "file at info level, on standard error and in the text of exceptions; pairs of ballots that differ only in votes and write-ins must "
        "publish the same structure, and every published value must be one of the ciphertexts, proofs and hashes; statistics of challenges and "
        "responses by vote; distinct by (election, ballot, form)")
ASSUMPTIONS = ["libgmp and hashlib are correct", "secrets are searched in the listed encodings only"]
I = e.I


class Secrets:
    """scanner for values that must not appear"""
    def __init__(self):
        self.hex16, self.dec, self.raw8, self.text = {}, {}, {}, {}

    def num(self, name, v, width=32):
        if v < 2**128: return            # too small to be recognised
        h = "%0*X" % (2 * width, v)
        for j in range(0, len(h) - 15):
            w = h[j:j + 16]
            if len(set(w)) > 4: self.hex16[w] = name
        b = v.to_bytes(width, "big")
        for x in (b, b[::-1]):
            for j in range(len(x) - 7):
                w = x[j:j + 8]
                if len(set(w)) > 4: self.raw8[w] = name
            for sh in range(3):
                t = base64.b64encode(b"\0" * sh + x)[4 * (sh > 0):][:20]
                self.text[t] = name
        self.dec[str(v)] = name
        for j in range(width // 8):
            l = v >> (64 * j) & (2**64 - 1)
            if l > 10**17: self.dec[str(l)] = name
            if l > 2**63: self.dec[str(l - 2**64).lstrip("-")] = name

    def word(self, name, s):
        b = s.encode()
        for t in (b, b.hex().encode(), b.hex().upper().encode(), json.dumps(s)[1:-1].encode(), base64.b64encode(b)[:-4]):
            if len(t) >= 8: self.text[t] = name

    def scan(self, data):
        """name of a secret found in data (bytes), or None"""
        up = data.upper()
        for m in re.finditer(rb"[0-9A-F]{16,}", up):
            t = m.group().decode()
            for j in range(len(t) - 15):
                if t[j:j + 16] in self.hex16: return "%s, in hexadecimal" % self.hex16[t[j:j + 16]]
        for m in re.finditer(rb"[0-9]{16,}", data):
            if m.group().decode() in self.dec: return "%s, in decimal" % self.dec[m.group().decode()]
        for j in range(len(data) - 7):
            if data[j:j + 8] in self.raw8: return "%s, as raw bytes" % self.raw8[data[j:j + 8]]
        for t, n in self.text.items():
            if t in data: return "%s, as text" % n
        return None


def token(rng):
    return rng.choice(["Zq%sWx", "Ñ%sé", "%s \"Quote\"", "日%s本"]) % "".join(rng.choice("BCDFGHJKLMNPQRSTVWXZbcdfghjklmnpqrstvwxz") for _ in range(14))


def mark(rng, b, sec):
    """give every write-in a recognisable text"""
    for k in b["contests"]:
        for s in k["sels"]:
            if s.get("writein") or rng.random() < 0.3:
                s["writein"] = token(rng)
                sec.word("write-in of %s" % s["id"], s["writein"])


def learn(sec, ss, b, cb, votes, exposed=lambda x: None):
    """all secrets of one recorded encryption, checked to be the real ones"""
    nonce = I(cb["nonce"])
    sec.num("ballot nonce", nonce)
    sec.num("nonce seed", H(QE(ss.mh), b["id"], QE(nonce)))
    n = 0
    for k, x in zip(cb["contests"], e.expect(ss.m, b)):
        cn, cp, sn, ed = e.nonces(ss.m, ss.mh, b["id"], nonce, x["contest"])
        for name, v in (("contest nonce", cn), ("stored contest nonce", I(k["nonce"])), ("contest proof seed", cp), ("extra data nonce", ed)):
            sec.num(name, v)
        agg = sum(sn) % Q
        sec.num("aggregate nonce", agg)
        sec.num("contest proof nonce", (I(k["proof"][3]) - I(k["proof"][2]) * agg) % Q)
        exposed(o.const_exposed([I(y) for y in k["proof"][:4]] + [k["proof"][4]], agg, q=ss.ext))
        beta = powm(ss.K, ed)
        sec.num("extra data shared secret", beta, 512)
        sec.num("extra data session key", H(e.PE(I(k["hashed"]["pad"])), e.PE(beta)))
        for s, r, v in zip(k["sels"], sn, x["votes"]):
            sec.num("selection nonce", r)
            sec.num("stored selection nonce", I(s["nonce"]))
            if v: sec.num("selection shared secret", powm(ss.K, r), 512)   # for 0 it is the ciphertext itself
            pr = [I(y) if isinstance(y, str) else y for y in s["proof"]]
            sec.num("selection proof nonce", (pr[7 + v] - pr[4 + v] * r) % Q)
            exposed(o.disj_exposed(pr, r, v, q=ss.ext))
            n += 1
            votes.append((v, pr))
    return n


def published(d, name, sub):
    """every published form: (what, format, document)"""
    out = []
    for f in "jbm":
        out.append(("encrypted ballot", f, bytes.fromhex(d.call("ser", "cb", name, f, "0")[0])))
    for st in (1, 2, 999):
        d.call("sb_from", sub, name, str(st))
        for f in "jbm":
            out.append(("submitted ballot, state %d" % st, f, bytes.fromhex(d.call("ser", "sb", sub, f)[0])))
            if st == 1: out.append(("submitted ballot as base class", f, bytes.fromhex(d.call("ser", "sbc", sub, f, "0")[0])))
    return out


HEXV = re.compile(r"^(?:[0-9A-Fa-f]{2})+$")


def mask(x, path=""):
    """structure of a published document without its ciphertexts, proofs and hashes; values collects the masked ones"""
    if isinstance(x, dict): return {k: mask(v, k) for k, v in x.items()}
    if isinstance(x, list): return [mask(v, path) for v in x]
    if isinstance(x, str) and len(x) > 40 and HEXV.match(x): return "<hex>" if len(x) <= 1024 else "<hex long>"
    return x


def values(x):
    if isinstance(x, dict):
        for v in x.values(): yield from values(v)
    elif isinstance(x, list):
        for v in x: yield from values(v)
    elif isinstance(x, str) and len(x) > 40 and HEXV.match(x): yield x


def known_values(ss, cb):
    """the numbers a published ballot may contain"""
    ok = {ss.mh, I(cb["hash"]), I(cb["code"]), I(cb["seed"]), I(cb["mh"])}
    by = {cb["id"].upper(), cb["style"].upper()} | {x["id"].upper() for k in cb["contests"] for x in [k] + k["sels"]}   # names may look like numbers
    for k in cb["contests"]:
        ok |= {I(k["dh"]), I(k["hash"]), I(k["acc"][0]), I(k["acc"][1]), I(k["hashed"]["pad"])}
        ok |= {I(y) for y in k["proof"][:4]}
        by |= {k["hashed"]["data"].upper(), k["hashed"]["mac"].upper()}
        for s in k["sels"]:
            ok |= {I(s["pad"]), I(s["data"]), I(s["dh"]), I(s["hash"])}
            ok |= {I(y) for y in s["proof"] if isinstance(y, str)}
    return ok, by


def docs(obs, rng, d, ss, m, case):
    style = None
    sec = Secrets()
    sec.num("secret key", ss.s)
    pair, structs = [], []
    b0 = e.ballot(rng, m)
    for j in range(2):
        b = e.ballot(rng, m, kind=rng.choice([None, "full", "over", "none"]))
        b["id"] = b0["id"]
        if j: b["style"], b["contests"] = style, [k for k in b["contests"] if True]
        style = b["style"]
        mark(rng, b, sec)
        pair.append(b)
    if pair[0]["style"] != pair[1]["style"]: return
    seed, ts, votes = rng.randrange(1, Q), rng.randrange(1, 2**40), []
    for j, b in enumerate(pair):
        cs = dict(case, ballot=e.jdump(b))
        ss.load(b)
        try:
            nonce = rng.choice([None, rng.randrange(2**200, Q)])
            cb = ss.encrypt(nonce=nonce, seed=seed, ts=ts, verify=rng.random() < 0.2)
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **cs)
            return
        learn(sec, ss, b, cb, votes, lambda x: x and obs.bad("the nonce of a ciphertext follows from its published proof: the commitment exponent is %s" % x, sig="exposed", **cs))
        ok, by = known_values(ss, cb)
        forms = published(d, "cb", "sb")
        for what, f, doc in forms:
            obs.ev("%s, %s" % (what, dict(j="JSON", b="BSON", m="MessagePack")[f]), e.jdump([m, b]), sample="%d bytes" % len(doc))
            hit = sec.scan(doc)
            if hit: obs.bad("%s in %s contains a secret: %s" % (what, f, hit), sig="secret", **cs)
            if f == "j":
                t = json.loads(doc)
                for v in values(t):
                    if int(v, 16) not in ok and v.upper() not in by:
                        obs.bad("%s publishes %s..., which is no ciphertext, proof or hash of the ballot" % (what, v[:64]), sig="unknown value", **cs)
                structs.append((j, what, e.jdump(mask(t))))
                obs.note("published values accounted for", sum(1 for _ in values(t)))
    for what in {w for _, w, _ in structs}:
        x = [s for j, w, s in structs if w == what]
        obs.ev("pair of ballots, other votes", e.jdump(pair) + what)
        if x[0] != x[1]:
            at = next((i for i, (p, q) in enumerate(zip(x[0], x[1])) if p != q), 0)
            obs.bad("%s: what is published depends on the votes beyond ciphertexts and proofs: ...%s / ...%s" % (
                what, x[0][max(0, at - 80):at + 80], x[1][max(0, at - 80):at + 80]), sig="structure", **dict(case, ballots=e.jdump(pair)))
    obs.note("secrets searched (64-bit pieces)", len(sec.hex16))
    for v, pr in votes:
        for nm, x in (("c0", pr[4]), ("c1", pr[5]), ("v0", pr[7]), ("v1", pr[8])):
            obs.stat.setdefault((nm, v), []).append(x)


def work(obs, rng, i, n, exe, count):
    obs.stat = {}
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=2, seats=2, wide=e.wide(i, it == 0))
        case = dict(manifest=e.jdump(m))
        try:
            ss = e.Session(d, rng, m)
            docs(obs, rng, d, ss, m, case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
    # cheap extra samples for the statistics: proofs of single selections
    lines, want = [], []
    for _ in range(30 * count):
        K, r, v = rng.randrange(2, Q), rng.randrange(1, Q), rng.randrange(2)
        K = powm(G, K)
        a, b = o.enc(v, r, K)
        lines.append(c.line("dmake", a, b, r, True, K, rng.randrange(Q), "-" if rng.random() < 0.7 else rng.randrange(1, Q), str(v)))
        want.append((v, r))
        if len(lines) == 30:
            for x, (w, r), ln in zip(d.raw(lines), want, lines):
                f = d.parse(x)
                obs.ev("proof of one selection", ln)
                ex = o.disj_exposed([I(y) for y in f[:9]], r, w)
                if ex: obs.bad("the nonce of a ciphertext follows from its published proof: the commitment exponent is %s" % ex, sig="exposed", case=ln)
                for nm, j in (("c0", 4), ("c1", 5), ("v0", 7), ("v1", 8)): obs.stat.setdefault((nm, w), []).append(I(f[j]))
            lines, want = [], []
    d.close()
    # frequency of each bit, by vote
    for (nm, v), l in obs.stat.items():
        for bit in range(255):
            obs.notes["bit %s %d %d" % (nm, v, bit)] = sum(x >> bit & 1 for x in l)
        obs.notes["samples %s %d" % (nm, v)] = len(l)
    del obs.stat


def judge_bits(obs):
    for v in (0, 1):
        for nm in ("c0", "c1", "v0", "v1"):
            N = obs.notes.pop("samples %s %d" % (nm, v), 0)
            worst = 0
            for bit in range(255):
                k = obs.notes.pop("bit %s %d %d" % (nm, v, bit), 0)
                z = abs(2 * k - N) / max(1, N) ** 0.5
                worst = max(worst, z)
                if N >= 200 and z > 8:
                    obs.bad("bit %d of %s is set in %d of %d proofs of votes %d: the proof tells the vote" % (bit, nm, k, N, v), sig="bias")
            obs.ev("bit statistics of %s for votes %d" % (nm, v), "%s %d" % (nm, v), sample="%d proofs, largest deviation %.2f sigma" % (N, worst))


def logs(obs, rng, i, n, exe, count):
    """the same operations, and every failure, with the log of an operator's build recorded"""
    tmp = tempfile.mkdtemp(prefix="egv-c15-")
    log = os.path.join(tmp, "log")
    sec = Secrets()
    said = []
    d = c.Drv(exe, log=log)

    def call(*a):
        try:
            return d.call(*a)
        except c.LibEx as ex:
            said.append(str(ex))
            obs.note("errors reported")
            return None

    case = {}
    try:
        for it in range(count):
            m = e.manifest(rng, maxc=2, maxs=2, seats=1)
            case = dict(manifest=e.jdump(m))
            ss = e.Session(d, rng, m)
            sec.num("secret key", ss.s)
            call("keypair", ss.s)
            b = e.ballot(rng, m, kind=rng.choice([None, "over"]))
            mark(rng, b, sec)
            case["ballot"] = e.jdump(b)
            ss.load(b)
            nonce = rng.randrange(2**200, Q)
            cb = ss.encrypt(nonce=nonce, verify=rng.random() < 0.3)
            learn(sec, ss, b, cb, [])
            obs.ev("encryption under log watch", e.jdump([m, b]))
            # verification of the good, of a tampered ballot, and against the wrong election
            if rng.random() < 0.3: call("cb_valid", "cb", ss.mh, ss.K, ss.ext)
            call("cb_valid", "cb", ss.mh ^ 1, ss.K, ss.ext)
            call("cb_valid", "cb", ss.mh, ss.K, ss.ext ^ 1)
            t = copy.deepcopy(cb)
            k = rng.choice(t["contests"])
            s = rng.choice(k["sels"])
            w = rng.choice(["hash", "dh", "pad", "proof", "chash", "cproof", "noproof", "acc"])
            if w in ("hash", "dh", "pad"): s[w] = "%X" % (I(s[w]) ^ 2)
            elif w == "proof": s["proof"][rng.randrange(4, 9)] = "%064X" % rng.randrange(Q)
            elif w == "chash": k["hash"] = "%064X" % rng.randrange(Q)
            elif w == "cproof": k["proof"][2] = "%064X" % rng.randrange(Q)
            elif w == "noproof": s["proof"] = None
            elif w == "acc": k["acc"][0] = "%X" % G
            call("cbj_valid", json.dumps(t).encode().hex(), ss.mh, ss.K, ss.ext)
            obs.ev("verification under log watch", w + e.jdump([m, b]))
            # refused ballots
            bad = copy.deepcopy(b)
            bad["contests"] = [dict(id=x["contest"]["id"], sels=[dict(id=s["id"], vote=0, writein=token(rng)) for s in x["contest"]["sels"]])
                               for x in e.expect(m, b)]
            for x in bad["contests"]:
                for s in x["sels"]: sec.word("write-in of a refused ballot", s["writein"])
            how = rng.choice(["style", "vote", "many", "contest", "selection"])
            if how == "style": bad["style"] = "no such style"
            elif how == "vote": bad["contests"][0]["sels"][0]["vote"] = rng.choice([2, 3, 2**40])
            elif how == "many": bad["contests"][0]["sels"] += [dict(id="x%d" % j, vote=1, writein=token(rng)) for j in range(9)]
            elif how == "selection": bad["contests"][0]["sels"][0]["id"] = "other"
            elif how == "contest": bad["contests"][0]["id"] = "other"
            for x in bad["contests"]:
                for s in x["sels"]: sec.word("write-in of a refused ballot", s["writein"])
            ss.load(bad, "bad")
            n2 = rng.randrange(2**200, Q)
            sec.num("nonce of a refused ballot", n2)
            call("enc_ballot", "cbx", "bad", ss.int, ss.ctx, ss.seed, n2, "7", rng.random() < 0.3)
            call("med_make", "med", ss.int, ss.ctx, ss.dev)
            call("med_encrypt", "med", "cbx", "bad", False)
            call("med_compact", "med", "ccx", "bad", False)
            obs.ev("refusal under log watch", how + e.jdump([m, b]))
            # failing self-check: a key outside the subgroup
            badk = rng.choice([P - 1, P - ss.K, 2, 3])
            mh = "%064X" % ss.mh
            call("ctx_make", "ctxb", "e", "1", "1", "%01024X" % badk, "%064X" % ss.commit, mh, "-", b"null".hex())
            call("enc_ballot", "cbx", "pb", ss.int, "ctxb", ss.seed, nonce, "7", True)
            sec.num("ballot nonce", nonce)
            obs.ev("failing self-check under log watch", e.jdump([m, b]))
            # compact forms, expansion of altered ones
            ss.load(b)
            call("enc_compact", "cc", "pb", ss.int, ss.ctx, ss.seed, nonce, "7", False)
            q = json.loads(bytes.fromhex(d.call("dump", "cc", "cc")[0]))
            q["code"] = "%064X" % rng.randrange(Q)
            call("cc_build", "ccx", json.dumps(q).encode().hex())
            call("cc_expand", "x", "ccx", ss.int, ss.ctx)
            # decryption: right, wrong key, not a bit, broken tag
            k = cb["contests"][0]
            h = k["hashed"]
            call("hdec", I(h["pad"]), bytes.fromhex(h["data"]), bytes.fromhex(h["mac"]), ss.s, ss.ext, True)
            wrong = rng.randrange(2**200, Q)
            sec.num("wrong secret key", wrong)
            call("hdec", I(h["pad"]), bytes.fromhex(h["data"]), bytes.fromhex(h["mac"]), wrong, ss.ext, True)
            call("hdec", I(h["pad"]), bytes.fromhex(h["data"])[:-32], bytes.fromhex(h["mac"]), ss.s, ss.ext, True)
            call("dec", I(k["sels"][0]["pad"]), I(k["sels"][0]["data"]), ss.s)
            call("dec", I(k["sels"][0]["pad"]), I(k["sels"][0]["data"]), wrong)
            call("dec", I(k["sels"][0]["pad"]), I(k["sels"][0]["data"]), 0)
            r = rng.randrange(2**200, Q)
            sec.num("nonce", r)
            call("enc", "1", r, True, ss.K); call("enc", "2", r, False, ss.K)
            a, bb = o.enc(1, r, ss.K)
            call("dmake", a, bb, r, True, ss.K, ss.ext, "-", "1"); call("dmake", a, bb, r, True, ss.K, ss.ext, "-", "2")
            call("dmake", a, bb, r, True, ss.K, ss.ext, "-", "0")
            msg = token(rng).encode()
            sec.word("message", msg.decode())
            call("henc", msg, r, ss.K, ss.ext, "510", True); call("henc", msg * 30, r, ss.K, ss.ext, "510", False)
            call("henc", msg, 0, ss.K, ss.ext, "510", True)
            obs.ev("decryption and proofs under log watch", e.jdump([m, b]))
    except c.Died as ex:
        obs.bad("%s" % ex, sig="died", **case)
    d.close()
    out = open(log, "rb").read() if os.path.exists(log) else b""
    obs.note("log bytes scanned", len(out))
    obs.note("log records scanned", out.count(b" :: "))
    if re.search(rb"\[(debug|trace)\] ::", out):
        obs.note("debug records in the log")
        # records below info are not promised to be free of secrets
        out = b"".join(x for x in re.split(rb"(?=^\[\d\d:\d\d:\d\d)", out, flags=re.M) if not re.search(rb"\] \[(debug|trace)\] ::", x[:120]))
    for what, data in (("log output", out), ("standard error", d.stderr().encode()), ("error text", "\n".join(said).encode())):
        hit = sec.scan(data)
        if hit:
            name = hit.split(",")[0]
            pieces = [k for k, v in list(sec.hex16.items()) if v == name] + [k.decode("latin1") for k, v in sec.text.items() if v == name]
            ctx = next((l for l in data.decode("latin1").splitlines() if any(p in l.upper() or p in l for p in pieces)), "")
            obs.bad("%s contains a secret: %s: %s" % (what, hit, ctx[:300]), sig="log", **case)
    for f in (log,):
        if os.path.exists(f): os.unlink(f)
    os.rmdir(tmp)


def run(ck):
    exe, info = c.egdrv(), c.egdrv("info")
    ck.shards(logs, info, ck.scale(4, 120))
    ck.shards(work, exe, ck.scale(7, 250))
    judge_bits(ck.obs)
