"""C14: every election object through every format and back."""
import copy, json
import common as c
import elect as e
import oracle as o
from oracle import P, Q, H, QE

RULE = ("random objects of every kind (manifest, internal manifest, context, device, plaintext, encrypted, submitted and compact ballots), among "
        "them values with leading zero bytes and zero, absent optional parts, empty lists, any Unicode text, sequence numbers up to 2^62 and "
        "equal to one another, written and read in every format the object offers, singly and in chains of formats; content, hashes, validity and "
        "the text written again are compared; distinct by (kind, format, content)")
ASSUMPTIONS = ["text is valid Unicode", "integers below 2^63", "at most 16 parts share one sequence number"]
I = e.I
FMT = dict(man="jbm", int="jbm", ctx="jb", dev="jb", pb="jbm", cb="jbm", sb="jbm", cp="jbm", cc="jbm")


def seq(rng, i): return rng.choice([i, i, i, 0, 7, 2**32 + i, 2**62 - i])


def hexq(rng): return "%X" % rng.choice([0, 1, 255, 256, rng.getrandbits(256) % Q, rng.getrandbits(248), rng.getrandbits(64), c.qval(rng, False), c.qval(rng, False)])
def hexp(rng): return "%X" % rng.choice([0, 1, rng.getrandbits(4088), rng.getrandbits(4000), rng.getrandbits(8), c.pval(rng, False), c.pval(rng, False), c.pval(rng, False)])


def blob(rng, n): return bytes([0] * rng.choice([0, 0, 1, 2])).hex().ljust(0) + rng.randbytes(n).hex()


def cipher(rng):
    """an encrypted ballot of arbitrary content"""
    ks = []
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        ss = [dict(id=e.txt(rng), seq=seq(rng, j), dh=hexq(rng), ph=rng.random() < 0.3, pad=hexp(rng), data=hexp(rng), nonce=rng.choice([None, hexq(rng), hexq(rng)]),
                   hash=hexq(rng), proof=None if rng.random() < 0.15 else [hexp(rng) for _ in range(4)] + [hexq(rng) for _ in range(5)])
              for j in range(rng.choice([0, 1, 1, 2, 3]))]
        n = rng.choice([32, 64, 512])
        hd = rng.randbytes(n)
        hm = rng.randbytes(32)
        if rng.random() < 0.3: hd = b"\0" * rng.choice([1, 2, n]) + hd[rng.choice([1, 2]):]
        if rng.random() < 0.3: hm = b"\0" + hm[1:]
        ks.append(dict(id=e.txt(rng), seq=seq(rng, i), dh=hexq(rng), nonce=rng.choice([None, hexq(rng), hexq(rng)]), acc=[hexp(rng), hexp(rng)], hash=hexq(rng),
                       proof=None if rng.random() < 0.15 else [hexp(rng), hexp(rng), hexq(rng), hexq(rng), rng.choice([0, 1, 2, 2**32, 2**62])],
                       hashed=None if rng.random() < 0.15 else dict(pad=hexp(rng), data=hd[:n].hex(), mac=hm[:32].hex()), sels=ss))
    return dict(id=e.txt(rng), style=e.txt(rng), mh=hexq(rng), seed=hexq(rng), code=hexq(rng), ts=rng.choice([0, 1, 2**32, 2**62, rng.getrandbits(40)]),
                nonce=rng.choice([None, hexq(rng), hexq(rng)]), hash=hexq(rng), contests=ks)


def norm(kind, x, nonces=True):
    """content to compare: element values as numbers, absent and zero nonces alike, nonces only when they were written"""
    x = copy.deepcopy(x)
    if kind in ("cb", "sb"):
        def nz(v): return 0 if (v is None or not nonces) else I(v)
        x["nonce"] = nz(x["nonce"])
        for k in x["contests"]:
            k["nonce"] = nz(k["nonce"])
            for s in k["sels"]: s["nonce"] = nz(s["nonce"])
    return x


def resort(x):
    """manifest content without the order of contests and selections, and without the hashes that depend on it"""
    x = copy.deepcopy(x)
    x.pop("hash", None)
    for k in x["contests"]:
        k.pop("hash", None)
        k["sels"].sort(key=lambda s: s["seq"])
    x["contests"].sort(key=lambda k: k["seq"])
    return x


class Trip:
    def __init__(self, obs, d, kind, name, key, case, nonces=None, truth=None, ordered=True, sorted_hash=None):
        self.__dict__.update(locals())

    def dump(self, name): return json.loads(bytes.fromhex(self.d.call("dump", self.kind, name)[0]))

    def ser(self, name, f, nonces=None):
        a = ["ser", self.kind, name, f]
        if nonces is not None: a.append("1" if nonces else "0")
        return bytes.fromhex(self.d.call(*a)[0])

    def run(self, rng):
        obs, d, kind = self.obs, self.d, self.kind
        first = self.dump(self.name)
        wn = bool(self.nonces) if kind in ("cb", "sb") else True
        a = norm(kind, first, wn)
        docs = {}
        for f in FMT[kind]:
            doc = self.ser(self.name, f, self.nonces)
            docs[f] = doc
            d.call("load", kind, "rt", f, doc)
            self.compare(a, norm(kind, self.dump("rt"), wn), "read back from " + f)
            obs.ev("%s %s%s" % (kind, f, "" if self.nonces is None else " nonces" if self.nonces else " public"), self.key, sample=doc[:200])
            again = self.ser("rt", f, self.nonces)
            if again != doc and self.ordered and not (kind in ("cb", "sb") and self.nonces is not False and self.hasnull(first)):
                obs.bad("%s written as %s, read and written again gives a different document" % (kind, f), sig="again", first=doc[:3000], second=again[:3000], **self.case)
        # a chain of formats
        fs = [rng.choice(FMT[kind]) for _ in range(3)]
        cur = self.name
        for f in fs:
            doc = self.ser(cur, f, self.nonces)
            cur = "ch"
            d.call("load", kind, cur, f, doc)
        self.compare(a, norm(kind, self.dump(cur), wn), "after the chain " + "".join(fs))
        obs.ev(kind + " chain", self.key + "".join(fs))

    @staticmethod
    def hasnull(x):
        return x["nonce"] is None or any(k["nonce"] is None or any(s["nonce"] is None for s in k["sels"]) for k in x["contests"])

    def compare(self, a, b, what):
        if a == b: return
        if not self.ordered:
            if resort(a) == resort(b):
                # the listing order is not kept; the hash follows it
                if self.kind == "int":
                    lost = I(b["hash"]) == I(a["hash"]) and all(I(k["hash"]) == self.sorted_hash[k["id"]] for k in b["contests"])
                else:
                    lost = I(b["hash"]) == self.sorted_hash
                if lost:
                    self.obs.bad("%s %s: listing order lost" % (self.kind, what), sig="listing-order", **self.case)
                    return
        df = diff(a, b)
        self.obs.bad("%s %s: %s" % (self.kind, what, df[:1500]), sig="content", **self.case)


def diff(a, b, path=""):
    if type(a) != type(b): return "%s: %r became %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k): return diff(a.get(k), b.get(k), path + "." + k)
    if isinstance(a, list):
        if len(a) != len(b): return "%s: %d parts became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y: return diff(x, y, "%s[%d]" % (path, i))
    return "%s: %r became %r" % (path, a, b)


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        kind = rng.choice(["man", "man", "man", "int", "int", "ctx", "dev", "pb", "pb", "cb", "cb", "cb", "sb", "sb", "cp", "cp", "cc", "cc"])
        case = {}
        try:
            one(obs, rng, d, kind, case)
        except c.Died as ex:
            obs.bad("%s: %s" % (kind, ex), sig="died", **case)
            d.restart()
        except c.LibEx as ex:
            obs.bad("%s: refused: %s" % (kind, ex), sig="refused", **case)
    d.close()


def agree(spec, got, kind):
    """the object holds what it was made of (so that the comparison is not of two equally wrong dumps)"""
    def strip(x):
        if isinstance(x, dict): return {k: strip(v) for k, v in x.items()}
        if isinstance(x, list): return [strip(v) for v in x]
        return x
    return diff(strip(spec), strip(got)) if strip(spec) != strip(got) else None


def one(obs, rng, d, kind, case):
    if kind in ("man", "int"):
        m = e.manifest(rng, maxc=4, maxs=4, seats=3, wide=e.wide(rng.randrange(2), rng.random() < 0.1))
        if rng.random() < 0.1:          # invalid ones survive as well
            rng.choice([lambda: m["contests"][0].update(id=""), lambda: m["styles"][0].update(gpus=["nowhere"]),
                        lambda: m["contests"][0]["sels"][0].update(id="")])()
        case["object"] = spec = e.jdump(m)
        d.call("man_build", "m", json.dumps(m).encode())
        if kind == "man":
            Trip(obs, d, "man", "m", spec, case, ordered=e.in_order(m), sorted_hash=e.h_manifest(m, True)).run(rng)
        else:
            d.call("int_make", "im", "m")
            Trip(obs, d, "int", "im", spec, case, ordered=e.in_order(m), sorted_hash={k["id"]: e.h_contest(k, True) for k in m["contests"]}).run(rng)
    elif kind == "ctx":
        from checks import c24
        n, k, K, commit, mh = c24.u64(rng), c24.u64(rng), c24.key(rng), c.qval(rng, False), c.qval(rng, False)
        cfg = rng.choice([None, (rng.randrange(2), rng.getrandbits(40))])
        ext = c24.data(rng)
        case["object"] = spec = e.jdump([n, k, K, commit, mh, cfg, ext])
        c24.make(d, "x", rng.choice("eh"), n, k, K, commit, mh, cfg, ext)
        Trip(obs, d, "ctx", "x", spec, case, ordered=ext is None or len(ext) < 2).run(rng)
    elif kind == "dev":
        v = [rng.choice([0, 1, 2**32, 2**63 - 1, rng.getrandbits(63)]) for _ in range(3)] + [e.txt(rng)]
        case["object"] = spec = e.jdump(v)
        d.call("dev_make", "x", *[str(x) for x in v[:3]], v[3].encode())
        Trip(obs, d, "dev", "x", spec, case).run(rng)
    elif kind == "pb":
        b = dict(id=e.txt(rng), style=e.txt(rng), contests=[
            dict(id=e.txt(rng), sels=[dict(id=e.txt(rng), vote=rng.choice([0, 1, 1, 2, 2**32, 2**62]), ph=rng.random() < 0.3, writein=e.txt(rng))
                                      for _ in range(rng.choice([0, 1, 2, 3]))]) for _ in range(rng.choice([0, 1, 2, 3]))])
        case["object"] = spec = e.jdump(b)
        d.call("pb_build", "x", json.dumps(b).encode())
        t = Trip(obs, d, "pb", "x", spec, case)
        w = agree(b, t.dump("x"), kind)
        if w: obs.bad("a plaintext ballot does not hold what it was made of: %s" % w, sig="made", **case)
        t.run(rng)
    elif kind in ("cb", "sb"):
        b = cipher(rng)
        case["object"] = spec = e.jdump(b)
        d.call("cb_build", "x", json.dumps(b).encode())
        if any(not k["proof"] or any(not s["proof"] for s in k["sels"]) for k in b["contests"]):
            # without its proofs a ballot cannot be written; that must be an error and nothing else
            obs.ev(kind + " without proofs", spec)
            try:
                if kind == "cb": d.call("ser", "cb", "x", rng.choice("jbm"), rng.random() < 0.5)
                else:
                    d.call("sb_from", "y", "x", "1")
                    d.call("ser", "sb", "y", rng.choice("jbm"))
            except c.LibEx:
                return
        if kind == "cb":
            Trip(obs, d, "cb", "x", spec, case, nonces=rng.random() < 0.6).run(rng)
        else:
            d.call("sb_from", "y", "x", rng.choice(["1", "2", "999"]))
            Trip(obs, d, "sb", "y", spec, case).run(rng)
    elif kind == "cp":
        n = rng.choice([0, 1, 3, 8])
        p = dict(id=e.txt(rng), style=e.txt(rng), sels=[rng.choice([0, 1, 2, 2**62]) for _ in range(n)], writeins=[e.txt(rng) for _ in range(n)])
        case["object"] = spec = e.jdump(p)
        d.call("cp_build", "x", json.dumps(p).encode())
        t = Trip(obs, d, "cp", "x", spec, case)
        w = agree(p, t.dump("x"), kind)
        if w: obs.bad("a compact ballot does not hold what it was made of: %s" % w, sig="made", **case)
        t.run(rng)
    else:
        n = rng.choice([0, 1, 3, 8])
        pid = e.txt(rng)
        p = dict(id=pid, plain=dict(id=pid, style=e.txt(rng), sels=[rng.choice([0, 1, 2, 2**62]) for _ in range(n)], writeins=[e.txt(rng) for _ in range(n)]),
                 seed=hexq(rng), code=hexq(rng), nonce=hexq(rng), ts=rng.getrandbits(40), state=rng.choice([1, 2, 999]))
        case["object"] = spec = e.jdump(p)
        d.call("cc_build", "x", json.dumps(p).encode())
        Trip(obs, d, "cc", "x", spec, case).run(rng)


def honest(obs, rng, i, n, exe, count):
    """encrypted ballots of real elections: verdicts, recomputed hashes, use of what was reloaded"""
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=2, seats=1, wide=e.wide(i, it == 0))
        case = dict(manifest=e.jdump(m))
        try:
            ss = e.Session(d, rng, m)
            b = e.ballot(rng, m)
            ss.load(b)
            case["ballot"] = e.jdump(b)
            nonce, seed = rng.randrange(1, Q), rng.randrange(Q)
            cb = ss.encrypt(nonce=nonce, seed=seed, ts=77, verify=False)
            for wn in (True, False):
                Trip(obs, d, "cb", "cb", e.jdump(cb) + str(wn), case, nonces=wn).run(rng)
            f = rng.choice("jbm")
            wn = rng.random() < 0.5
            d.call("load", "cb", "r", f, bytes.fromhex(d.call("ser", "cb", "cb", f, wn)[0]))
            v = d.call("cb_valid", "r", ss.mh, ss.K, ss.ext)[0] == "1"
            obs.ev("verified after reload", e.jdump(cb) + f)
            if not v: obs.bad("an honest ballot is rejected after writing and reading it as %s" % f, sig="verdict", **case)
            st = rng.choice(["1", "2", "999"])
            d.call("sb_from", "sb", "cb", st)
            Trip(obs, d, "sb", "sb", e.jdump(cb), case).run(rng)
            f = rng.choice("jbm")
            d.call("load", "sb", "sr", f, bytes.fromhex(d.call("ser", "sb", "sb", f)[0]))
            if d.call("sb_valid", "sr", ss.mh, ss.K, ss.ext)[0] != "1": obs.bad("an honest submitted ballot is rejected after reload from %s" % f, sig="verdict", **case)
            obs.ev("submitted verified after reload", e.jdump(cb) + f)
            if not e.in_order(m): continue
            # encryption with reloaded manifest, context and plaintext gives the same ballot
            f1, f2, f3 = rng.choice("jbm"), rng.choice("jb"), rng.choice("jbm")
            d.call("load", "int", ss.int, f1, bytes.fromhex(d.call("ser", "int", ss.int, f1)[0]))
            d.call("load", "ctx", ss.ctx, f2, bytes.fromhex(d.call("ser", "ctx", ss.ctx, f2)[0]))
            d.call("load", "pb", "pb", f3, bytes.fromhex(d.call("ser", "pb", "pb", f3)[0]))
            r = ss.encrypt(out="again", nonce=nonce, seed=seed, ts=77, verify=False)
            obs.ev("encrypted with reloaded inputs", e.jdump(cb) + f1 + f2 + f3)
            if (r["hash"], r["code"]) != (cb["hash"], cb["code"]) or [k["hashed"] for k in r["contests"]] != [k["hashed"] for k in cb["contests"]]:
                obs.bad("encryption with reloaded manifest (%s), context (%s) and ballot (%s) differs" % (f1, f2, f3), sig="reuse", **case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **case)
    d.close()


def run(ck):
    exe = c.egdrv()
    ck.shards(work, exe, ck.scale(1600, 12000))
    ck.shards(honest, exe, ck.scale(14, 150))
