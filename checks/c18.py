"""C18: hostile inputs to every public entry point, in the AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer build, and under Memcheck."""
import sys
sys.setrecursionlimit(20000)
import base64, copy, json, os, re, subprocess, tempfile
import common as c
import elect as e
import oracle as o
from oracle import P, Q
from checks import c14, c21

RULE = ("element texts, byte strings and limbs of every length and content, arithmetic, proofs, hashing and decryption on unreduced and hostile values, "
        "documents of every kind and format mutated in structure (members removed, renamed, retyped, nulled, repeated, nested, exchanged between "
        "documents, hostile hexadecimal and numbers) and in bytes (flips, cuts, insertions, length fields, splices), objects lacking every optional "
        "part, then every operation the loaded object offers, in a build with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions, "
        "leaks counted after every session; entropy faults; a session in the plain build under Memcheck for uninitialised memory; "
        "distinct by input")
ASSUMPTIONS = ["a request for more memory than there is, is not a memory error", "numbers of seats stay below 60",
               "enumeration values are among those declared"]
I = e.I
OOM = re.compile("allocation-size-too-big|out-of-memory|hard rss limit|bad_alloc|calloc-overflow|exceeds maximum supported size")


class Box:
    """a driver that survives the death of the process, reporting each as a violation"""
    def __init__(self, obs, exe, **kw):
        self.obs, self.exe, self.kw = obs, exe, kw
        self.d = c.Drv(exe, env=dict(ASAN_OPTIONS=c.LEAKS + ":hard_rss_limit_mb=3500"), timeout=240, **kw)
        self.setup = []
        self.last = []

    def call(self, *a):
        """None when refused or dead"""
        self.last = (self.last + ["\t".join(x if isinstance(x, str) else c.drv.fmt(x) for x in a)])[-12:]
        try:
            return self.d.call(*a)
        except c.LibEx as ex:
            if ex.typ == "unknown" or "char" in ex.typ: self.obs.note("refusals that are not std::exception")
            return None
        except c.Died as ex:
            err = self.d.stderr()
            if OOM.search(err) or OOM.search(str(ex)):
                self.obs.note("memory exhausted")
            else:
                fr = [f for f in re.findall(r"#\d+ 0x\w+ in ([^\n]*)", err) if "electionguard" in f or "Hacl" in f or "harness" in f]
                where = re.sub(r" /\S*/", " ", (fr or ["?"])[0])
                self.obs.bad("%s in %s" % (ex, where), sig=re.sub(r"\W+", " ", where.split("(")[0]).strip(), calls="\n".join(x[:4000] for x in self.last),
                             report=err[:6000], exe=self.exe)
            self.d.restart()
            raise Lost()

    def leaks(self, what):
        self.d.call("dropall")
        if self.d.call("leaks")[0] != "0":
            err = self.d.stderr()
            fr = [f for f in re.findall(r"#\d+ 0x\w+ in ([^\n]*)", err) if "electionguard" in f]
            self.obs.bad("memory leaked after %s; allocated in %s" % (what, re.sub(r" /\S*/", " ", (fr or ["?"])[0])), sig="leak", report=err[-8000:],
                         calls="\n".join(x[:2000] for x in self.last))
        self.obs.ev("leak check after " + what, self.obs.n)


class Lost(Exception):
    pass


# ---- hostile scalars ----------------------------------------------------------------------------------
def rbytes(rng, n): return rng.randbytes(n)


def hostile_hex(rng, bits):
    k = rng.randrange(12)
    full = bits // 4
    if k == 0: return b""
    if k == 1: return rbytes(rng, rng.choice([1, 2, 3, 64, 65, full, full + 1, 3000]))
    if k == 2: return b"0" * rng.choice([1, 2, full, full + 1, full + 2, 5000])
    if k == 3: return b"F" * rng.choice([1, full - 1, full, full + 1, full + 2, full * 2, 20000])
    if k == 4: return b"0x" + b"A" * rng.choice([0, 1, full, full + 1])
    if k == 5: return b"-1"
    if k == 6: return (b"%X" % rng.getrandbits(bits)) + rng.choice([b"g", b"\0", b" ", b"\xff", b"\n"])
    if k == 7: return rng.choice([b" ", b"\0", b"+", b"zz"]) + (b"%X" % rng.getrandbits(bits))
    if k == 8: return "é日本".encode() * rng.choice([1, 100])
    if k == 9: return b"%x" % rng.getrandbits(rng.choice([1, 63, 64, 65, bits - 1, bits, bits + 1, bits + 64]))
    if k == 10: return b"0" * rng.randrange(400) + b"%X" % rng.getrandbits(bits)
    return b"%X" % rng.getrandbits(bits)


def limbs(rng):
    n = rng.choice([0, 1, 3, 4, 5, 8, 63, 64, 65, 128, 1000])
    return ",".join("%x" % rng.choice([0, 1, 2**64 - 1, rng.getrandbits(64)]) for _ in range(n)) or "-"


def elements(obs, rng, b, count):
    for _ in range(count):
        if obs.full(): return
        for t, bits in (("p", 4096), ("q", 256)):
            try:
                h = hostile_hex(rng, bits)
                b.call(t + "_fromhex", h, rng.random() < 0.5); obs.ev("hexadecimal text", h)
                by = rbytes(rng, rng.choice([0, 1, 2, 31, 32, 33, 63, 64, 511, 512, 513, 1024, 4000]))
                if rng.random() < 0.3: by = b"\xff" * len(by)
                b.call(t + "_frombytes", by, rng.random() < 0.5); obs.ev("bytes", by)
                b.call(t + "_frombytesptr", by, rng.random() < 0.5)
                l = limbs(rng)
                if l != "-":
                    b.call(t + "_fromvec", l, rng.random() < 0.5); obs.ev("limbs", l)
                b.call(t + "_fromu64", str(rng.choice([0, 1, 2**63, 2**64 - 1, rng.getrandbits(64)])), rng.random() < 0.5)
                v = c.pval(rng) if t == "p" else c.qval(rng)
                b.call(t + "_enc", v); b.call(t + "_bounds", v)
            except Lost: pass
        try:
            for op in ("addp", "mulp"): b.call(op, c.pval(rng), c.pval(rng)); obs.ev("arithmetic " + op, obs.n)
            for op in ("addq", "subq"): b.call(op, c.qval(rng), c.qval(rng)); obs.ev("arithmetic " + op, obs.n)
            b.call("apbc", c.qval(rng), c.qval(rng), c.qval(rng))
            b.call("subfromq", c.qval(rng)); b.call("modp", c.pval(rng)); b.call("qtop", c.qval(rng))
            b.call("mulpv", *[rng.choice(["P%X" % c.pval(rng), "Q%X" % c.qval(rng)]) for _ in range(rng.choice([0, 1, 2, 5]))])
            b.call("addqv", *[c.qval(rng) for _ in range(rng.choice([0, 1, 2, 5]))])
            if rng.random() < 0.15:
                b.call("powpq", rng.random() < 0.5, c.pval(rng), c.qval(rng)); obs.ev("arithmetic powpq", obs.n)
                b.call("powpp", rng.random() < 0.5, c.pval(rng), c.pval(rng)); obs.ev("arithmetic powpp", obs.n)
                b.call("gpowq", c.qval(rng)); b.call("gpowp", c.pval(rng)); b.call("p_residue", rng.random() < 0.5, c.pval(rng))
            if rng.random() < 0.1:
                b.call("rand_q", "3"); b.call("rand_p", "2")
        except Lost: pass


def crypto(obs, rng, b, count):
    pv, qv = lambda: c.pval(rng), lambda: c.qval(rng)
    key = e.Keys(rng)
    for _ in range(count):
        if obs.full(): return
        try:
            b.call("hmac", rbytes(rng, rng.choice([0, 1, 31, 32, 64, 65, 200])), rbytes(rng, rng.choice([0, 1, 63, 64, 65, 1000])), str(rng.choice([0, 1, 2**31, 2**32 - 1, 512])), str(rng.choice([0, 1, 2**31, 16])))
            obs.ev("mac", obs.n)
            n = rng.choice([0, 1, 31, 32, 33, 511, 512, 513, 1024, 33000])
            b.call("hdec", rng.choice([pv(), key.K, 0, 1]), rbytes(rng, n), rbytes(rng, rng.choice([0, 1, 31, 32, 33, 64])), rng.choice([qv(), key.s, 0]), qv(), rng.random() < 0.5)
            obs.ev("hashed decryption of garbage", obs.n)
            b.call("dec", rng.choice([pv(), 0, 1, P - 1]), rng.choice([pv(), 0, 1]), rng.choice([qv(), 0]))
            obs.ev("decryption of garbage", obs.n)
            b.call("dvalid", pv(), pv(), rng.random() < 0.3, rng.choice([pv(), key.K]), qv(), *[rng.choice([pv(), o.G, 0, 1]) for _ in range(4)], *[qv() for _ in range(5)])
            obs.ev("disjunctive proof of garbage", obs.n)
            b.call("cvalid", pv(), pv(), rng.random() < 0.3, pv(), qv(), pv(), pv(), qv(), qv(), str(rng.choice([0, 1, 5, 2**63, 2**64 - 1])))
            obs.ev("constant proof of garbage", obs.n)
            b.call("keypair", rng.choice([qv(), 0, 1, 2]))
            b.call("chash", pv(), pv()); b.call("ceq", pv(), pv(), pv(), pv())
            b.call("enc", str(rng.choice([0, 1, 2, 2**64 - 1])), qv(), rng.random() < 0.3, rng.choice([pv(), 0, key.K])); obs.ev("encryption with hostile parts", obs.n)
            b.call("henc", rbytes(rng, rng.choice([0, 1, 30, 31, 32, 510, 511, 512, 2000])), rng.choice([qv(), 0]), rng.choice([pv(), 0, key.K]), qv(),
                   rng.choice(["0", "510"]), rng.random() < 0.5); obs.ev("hashed encryption with hostile parts", obs.n)
            if rng.random() < 0.4:
                b.call("dmake", pv(), pv(), qv(), rng.random() < 0.3, rng.choice([pv(), key.K]), qv(), rng.choice(["-", qv()]), str(rng.choice([0, 1, 2, 2**64 - 1])))
                b.call("cmake", pv(), pv(), qv(), rng.random() < 0.3, rng.choice([pv(), key.K]), qv(), qv(), str(rng.choice([0, 1, 2, 2**64 - 1])))
                obs.ev("proofs from hostile parts", obs.n)
            b.call("cadd", *[pv() for _ in range(rng.choice([0, 2, 4]))])
            b.call("nonces", qv(), rng.choice(["-", "S:", "S:ff00", "Q:%X" % qv(), "P:%X" % pv()]), "g:%d" % rng.choice([0, 1, 2**64 - 1]), "r:%d:%d" % rng.choice([(0, 0), (0, 3), (5, 2), (2**64 - 2, 2), (7, 7)]), "n", "gh:3:%s" % rng.choice(["", "00", "ffff"]))
            obs.ev("nonce sequences", obs.n)
            t = e.txt(rng).encode(errors="surrogatepass") + rng.choice([b"", b"\xff\xfe", b"\x80", b"\0"])
            b.call("hash", "S:" + t.hex(), "N", "B:" + rbytes(rng, rng.choice([0, 1, 100])).hex(), "VU:", "VS:-,%s" % t.hex(), "U:%d" % rng.getrandbits(64), "Pr:%X" % pv(), "VQp:%X,%X" % (qv(), qv())); obs.ev("hash of hostile text", t)
        except Lost: pass


# ---- documents ------------------------------------------------------------------------------------------
NASTY = [None, True, False, 0, 1, -1, 2, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, -2**31, -2**63, 1.5, -0.0, 1e308, 1e-320, "", "a", "0", "00", "FF", "-1", "null",
         [], {}, [[]], [None], {"": ""}, "\u0000", "x" * 5000, "F" * 64, "F" * 65, "F" * 1024, "F" * 1025, "F" * 1026, "F" * 4000, "0x10", "zz", "2020-13-45T99:99:99Z",
         "2020-01-01T00:00:00Z", "9999999-01-01T00:00:00Z", "0000-00-00T00:00:00Z", "2020-01-01", "T", "cast", "spoiled", "nonsense", "\ud83d\ude00"]


def nasty(rng):
    return copy.deepcopy(rng.choice(NASTY))


def paths(x, at=()):
    yield at
    if isinstance(x, dict):
        for k in x: yield from paths(x[k], at + (k,))
    elif isinstance(x, list):
        for i in range(min(len(x), 6)): yield from paths(x[i], at + (i,))


def deep(rng):
    x = rng.choice([1, None, "x"])
    for _ in range(rng.choice([3, 50, 400])):
        x = [x] if rng.random() < 0.5 else {"a": x}
    return x


def get(x, p):
    for k in p: x = x[k]
    return x


def put(x, p, v):
    if not p: return v
    t = get(x, p[:-1])
    t[p[-1]] = v
    return x


def jmut(rng, doc, others):
    doc = copy.deepcopy(doc)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        ps = list(paths(doc))
        p = rng.choice(ps)
        k = rng.randrange(11)
        if not p and k != 10: continue
        try:
            if k == 0:
                t = get(doc, p[:-1]); del t[p[-1]]
            elif k == 1: doc = put(doc, p, None)
            elif k in (2, 3): doc = put(doc, p, nasty(rng))
            elif k == 4:
                t = get(doc, p[:-1])
                if isinstance(t, dict): t[p[-1] + rng.choice([" ", "s", "_", "\u0000"])] = t.pop(p[-1])
                else: t.insert(p[-1], copy.deepcopy(t[p[-1]]))
            elif k == 5:
                v = get(doc, p)
                if isinstance(v, list): doc = put(doc, p, rng.choice([[], v * 3, v[:1], v[::-1]]))
                elif isinstance(v, str): doc = put(doc, p, rng.choice([v * 2, v[:-1], v[1:], v + "0", "0" + v, v[: len(v) // 2], v.lower()]))
                elif isinstance(v, bool): doc = put(doc, p, not v)
                elif isinstance(v, int): doc = put(doc, p, rng.choice([v + 1, -v, v * 2**32, 2**63, float(v)]))
            elif k == 6: doc = put(doc, p, deep(rng))
            elif k == 7:
                p2 = rng.choice(ps)
                doc = put(doc, p, copy.deepcopy(get(doc, p2)))
            elif k == 8:
                other = rng.choice(others)
                doc = put(doc, p, copy.deepcopy(get(other, rng.choice(list(paths(other))))))
            elif k == 9:
                v = get(doc, p)
                if isinstance(v, dict): v[rng.choice(["extra", "object_id", "nonce", "proof", "crypto_hash", ""])] = nasty(rng)
            elif k == 10 and rng.random() < 0.2:
                doc = nasty(rng)
        except (KeyError, IndexError, TypeError): pass
    return tame(doc)


def tame(x):
    """keep the number of seats within the domain: it is a count of objects to create"""
    if isinstance(x, dict):
        return {k: (min(abs(int(v)), 60) if k == "number_elected" and isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) > 60 else
                    (3 if k == "number_elected" and isinstance(v, (int, float)) and v < 0 else tame(v))) for k, v in x.items()}
    if isinstance(x, list): return [tame(v) for v in x]
    return x


def bmut(rng, b, others):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not b: break
        i = rng.randrange(len(b))
        k = rng.randrange(8)
        if k == 0: b[i] ^= 1 << rng.randrange(8)
        elif k == 1: b[i] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif k == 2: del b[i:]
        elif k == 3: del b[i:i + rng.choice([1, 2, 4, 100])]
        elif k == 4: b[i:i] = rbytes(rng, rng.choice([1, 4, 50]))
        elif k == 5: b[i:i + 4] = rng.choice([b"\xff\xff\xff\xff", b"\xff\xff\xff\x7f", b"\0\0\0\0", b"\0\0\0\x80", b"\x04\0\0\0"])
        elif k == 6:
            x = rng.choice(others); j = rng.randrange(max(1, len(x)))
            b[i:] = x[j:]
        else:
            j = rng.randrange(len(b)); b[i:i] = b[j:j + rng.randrange(1, 60)]
    return bytes(b)


FMT = c14.FMT


class World:
    """one small election with every kind of object, and its documents"""
    def __init__(self, b, rng):
        self.b, self.rng = b, rng
        self.m = e.manifest(rng, maxc=2, maxs=2, seats=1, odd=rng.random() < 0.5)
        self.key = e.Keys(rng)
        self.build()

    def build(self):
        d = self.b.d
        self.ss = s = e.Session(d, self.rng, m=self.m, key=self.key)
        self.pb = e.ballot(self.rng, self.m, clean=True, kind="full")
        s.load(self.pb)
        s.encrypt(nonce=self.rng.randrange(1, Q), verify=False)
        d.call("sb_from", "sb", "cb", "1")
        d.call("cp_make", "cp", "pb")
        d.call("cc_make", "cc", "pb", "cb")
        self.names = dict(man=s.man, int=s.int, ctx=s.ctx, dev=s.dev, pb="pb", cb="cb", sb="sb", cp="cp", cc="cc")
        self.docs = {}
        for k, n in self.names.items():
            for f in FMT[k]:
                a = ["ser", k, n, f] + (["1"] if k == "cb" else [])
                self.docs[k, f] = bytes.fromhex(d.call(*a)[0])
        self.trees = {k: json.loads(self.docs[k, "j"].decode()) for k in self.names}

    def mutate(self, k, f):
        rng = self.rng
        if rng.random() < 0.25:
            return bmut(rng, self.docs[k, f], [x for (kk, ff), x in self.docs.items() if ff == f]), "bytes"
        t = jmut(rng, self.trees[k], list(self.trees.values()))
        if f == "j":
            s = json.dumps(t, ensure_ascii=rng.random() < 0.5).encode(errors="surrogatepass")
            if rng.random() < 0.1:  # the same member twice
                s = re.sub(rb'("[a-z_]+": ?)("[^"]*"|\d+|null)', rb'\1\2, \g<1>null', s, count=rng.randrange(1, 4))
            return s, "structure"
        try:
            js = json.dumps(t).encode()
            r = self.b.d.call("conv", f, js)
            return bytes.fromhex(r[0]), "structure"
        except c.LibEx:
            return bmut(rng, self.docs[k, f], [self.docs[k, f]]), "bytes"

    def use(self, k, enc):
        """everything the loaded object offers"""
        b, s, rng = self.b, self.ss, self.rng
        call = b.call
        call("dump", k, "x")
        for f in FMT[k]:
            if k in ("cb",):
                call("ser", k, "x", f, "1"); call("ser", k, "x", f, "0")
            else: call("ser", k, "x", f)
        if k == "man":
            call("man_hash", "x"); call("man_valid", "x")
            if call("int_make", "xi", "x") is not None:
                call("dump", "int", "xi"); call("ser", "int", "xi", "j")
                for st in self.m["styles"]: call("int_for", "xi", st["id"].encode()); call("int_style", "xi", st["id"].encode())
                if enc: self.encrypt("pb", "xi", s.ctx)
        elif k == "int":
            for st in self.m["styles"]: call("int_for", "x", st["id"].encode())
            if enc: self.encrypt("pb", "x", s.ctx)
            call("cp_expand", "xp", "cp", "x")
        elif k == "ctx":
            if enc: self.encrypt("pb", s.int, "x")
        elif k == "dev":
            call("dev_ts", "x")
            call("med_make", "xm", s.int, s.ctx, "x")
        elif k == "pb":
            if call("cp_make", "xc", "x") is not None:
                call("cp_expand", "xp", "xc", s.int)
            if enc: self.encrypt("x", s.int, s.ctx)
            call("cc_make", "xcc", "x", "cb")
        elif k == "cb":
            call("cb_calc", "x")
            for st in (1, 2, 999):
                if call("sb_from", "xs", "x", str(st)) is not None: call("ser", "sb", "xs", "j")
            call("cc_make", "xcc", "pb", "x")
            if enc: call("cb_valid", "x", s.mh, s.K, s.ext)
        elif k == "sb":
            call("ser", "sbc", "x", "j", "1")
            if enc: call("sb_valid", "x", s.mh, s.K, s.ext)
        elif k == "cp":
            call("cp_expand", "xp", "x", s.int)
        elif k == "cc":
            if enc: call("cc_expand", "xc", "x", s.int, s.ctx)

    def encrypt(self, pb, im, ctx):
        b, rng = self.b, self.rng
        if b.call("enc_ballot", "xe", pb, im, ctx, rng.randrange(Q), rng.choice(["-", rng.randrange(Q)]), "77", rng.random() < 0.2) is not None:
            self.b.obs.note("ballots encrypted with mutated parts")
            b.call("ser", "cb", "xe", "j", "1")


def documents(obs, rng, b, count):
    w = World(b, rng)
    for it in range(count):
        if obs.full(): return
        k = rng.choice(list(w.names))
        f = rng.choice(FMT[k])
        try:
            doc, how = w.mutate(k, f)
            r = b.call("load", k, "x", f, doc)
            obs.ev("%s %s mutated in %s: %s" % (k, f, how, "accepted" if r is not None else "refused"), doc, sample=doc[:150])
            if r is not None: w.use(k, rng.random() < 0.25)
        except Lost:
            w.build()


# ---- objects lacking optional parts ----------------------------------------------------------------------
def partial(obs, rng, b, count):
    w = World(b, rng)
    s = w.ss
    whole = s.dump("cb", "cb")
    for it in range(count):
        if obs.full(): return
        try:
            x = copy.deepcopy(whole)
            cut = []
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.choice(x["contests"]) if x["contests"] else None
                what = rng.choice(["nonce", "contest nonce", "contest proof", "hashed", "selection nonce", "selection proof", "no selections", "no contests", "no code", "repeat"])
                cut.append(what)
                if what == "nonce": x["nonce"] = None
                elif what == "no contests": x["contests"] = []
                elif what == "no code": x["code"] = "0"
                elif k is None: continue
                elif what == "contest nonce": k["nonce"] = None
                elif what == "contest proof": k["proof"] = None
                elif what == "hashed": k["hashed"] = None
                elif what == "no selections": k["sels"] = []
                elif what == "repeat": x["contests"].append(copy.deepcopy(k))
                elif k["sels"]:
                    t = rng.choice(k["sels"])
                    t["nonce" if "nonce" in what else "proof"] = None
            b.call("cb_build", "x", json.dumps(x).encode())
            obs.ev("ballot lacking " + cut[0], "/".join(cut) + str(it), sample="/".join(cut))
            b.call("dump", "cb", "x")
            for f in "jbm":
                for n in "01": b.call("ser", "cb", "x", f, n)
            b.call("cb_calc", "x")
            if b.call("sb_from", "xs", "x", "1") is not None:
                for f in "jbm": b.call("ser", "sb", "xs", f)
            b.call("cc_make", "xc", "pb", "x")
            if rng.random() < 0.3: b.call("cb_valid", "x", s.mh, s.K, s.ext)
            b.call("cb_make", "xm", json.dumps(x).encode())
        except Lost:
            w.build()


# ---- failing entropy -----------------------------------------------------------------------------------
def entropy(obs, rng, b, count):
    w = World(b, rng)
    s = w.ss
    ops = [("a random number", ("rand_q", "1")), ("a random group element", ("rand_p", "1")),
           ("a proof", ("dmake", *[int(x, 16) for x in b.d.call("enc", "1", 5, False, s.K)], 5, False, s.K, s.ext, "-", "1")),
           ("a ballot", ("enc_ballot", "xe", "pb", s.int, s.ctx, 3, "-", "9", False)),
           ("a precomputation", ("pre_fill", False, s.K))]
    for it in range(count):
        name, op = ops[(it + rng.randrange(2)) % len(ops)]
        kind = rng.choice(["fail", "eof", "short", "half", "one", "intr", "nosys"])
        at = rng.randrange(1, 14)
        try:
            if name == "a precomputation": b.call("pre_init", "2")
            b.call("en_plan", kind, str(at), rng.random() < 0.5)
            b.call(*op)
            b.call("en_reset")
            obs.ev("entropy fault during " + name, "%s at %d" % (kind, at), sample="%s at request %d" % (kind, at))
        except Lost:
            w.build()
    b.call("pre_empty")


# ---- nesting -----------------------------------------------------------------------------------------------
def nested(f, n):
    if f == "j": return b"[" * n + b"]" * n
    if f == "o": return b'{"a":' * n + b"1" + b"}" * n
    if f == "m": return b"\x91" * n + b"\x01"
    if f == "M": return b"\x81\xa1a" * n + b"\x01"
    return b"".join((5 + (n - k) * 8).to_bytes(4, "little") + b"\x03a\0" for k in range(n)) + b"\x05\0\0\0\0" + b"\0" * n


def nesting(obs, rng, b, count):
    for k, fs in FMT.items():
        for f in {"j": "jo", "jb": "job", "jbm": "jobmM"}[fs]:
            n = rng.choice([450, 600, 5000, 40000, 60000]) if count == 0 else rng.choice([20000, 40000, 60000])
            try:
                b.call("load", k, "x", {"o": "j", "M": "m"}.get(f, f), nested(f, n))
                obs.ev("%s nested %s" % (k, f), n)
            except Lost: pass


def work(obs, rng, i, n, exe, ne, nc, nd, np):
    b = Box(obs, exe)
    try:
        for name, fn, cnt in (("elements", elements, ne), ("primitives", crypto, nc), ("documents", documents, nd), ("partial objects", partial, np),
                              ("failing entropy", entropy, np), ("nested documents", nesting, i % 2)):
            fn(obs, rng, b, cnt)
            b.leaks(name)
    except c.Died as ex:
        obs.bad("session: %s" % ex, sig="session", calls="\n".join(b.last), report=b.d.stderr()[:6000])
    b.d.close()


# ---- uninitialised memory: a session under Memcheck ------------------------------------------------------------
def memcheck(obs, rng, i, n, exe, count):
    """documents made by a plain driver, then everything done with them under Memcheck"""
    class Quiet:
        pass
    b = Quiet(); b.obs = obs
    b.d = c.Drv(exe)
    w = World(b, rng)
    muts = []
    for _ in range(count):
        k = rng.choice(list(w.names)); f = rng.choice(FMT[k])
        try: muts.append((k, f, w.mutate(k, f)[0]))
        except c.Died: break
    b.d.close()
    d = c.Drv(exe, cmd=["valgrind", "-q", "--error-limit=no", "--leak-check=no", "--num-callers=16", exe], timeout=600)
    seen = [0]

    def call(*a):
        r = None
        try: r = d.call(*a)
        except c.LibEx: pass
        obs.ev("under Memcheck: " + a[0], None)
        e_ = d.stderr()
        if len(e_) > seen[0]:
            new = e_[seen[0]:]
            seen[0] = len(e_)
            if re.search(r"uninitialised|Invalid (read|write|free)|Mismatched", new):
                fr = re.findall(r"(?:at|by) 0x\w+: ([^\n]*)", new)
                own = [x for x in fr if "electionguard" in x or "Hacl" in x or "Bignum" in x]
                obs.bad("Memcheck during %s: %s" % (a[0], (own or fr or ["?"])[0]), sig="memcheck " + a[0], report=new[:6000], call=" ".join(str(x) for x in a)[:3000])
        return r
    try:
        for k, f in w.docs:
            call("load", k, w.names[k], f, w.docs[k, f]); call("dump", k, w.names[k])
            if k != "cb": call("ser", k, w.names[k], f)
            else: call("ser", k, "cb", f, "1"); call("ser", k, "cb", f, "0")
        s = w.ss
        jobs = [lambda: call("man_hash", s.man), lambda: call("man_valid", s.man), lambda: call("int_make", "i2", s.man), lambda: call("cb_calc", "cb"),
                lambda: call("cp_make", "cp2", "pb"), lambda: call("cp_expand", "p2", "cp", s.int), lambda: call("sb_from", "s2", "cb", "2"),
                lambda: call("rand_q", "2"), lambda: call("rand_p", "1"), lambda: call("henc", b"abc", 7, s.K, s.ext, "510", True),
                lambda: call("enc", "1", 9, False, s.K), lambda: call("dec", s.K, s.K, 5), lambda: call("keypair", 12345),
                lambda: call("addp", c.pval(rng), c.pval(rng)), lambda: call("mulp", c.pval(rng), c.pval(rng)), lambda: call("subq", c.qval(rng), c.qval(rng)),
                lambda: call("addq", c.qval(rng), c.qval(rng)), lambda: call("apbc", c.qval(rng), c.qval(rng), c.qval(rng)), lambda: call("modp", c.pval(rng)),
                lambda: call("powpq", False, c.pval(rng), c.qval(rng)), lambda: call("gpowq", c.qval(rng)), lambda: call("p_residue", False, c.pval(rng)),
                lambda: call("p_fromhex", hostile_hex(rng, 4096), False), lambda: call("q_fromhex", hostile_hex(rng, 256), True),
                lambda: call("p_frombytes", rbytes(rng, rng.choice([0, 5, 512])), True), lambda: call("q_frombytes", rbytes(rng, rng.choice([0, 5, 32])), True),
                lambda: call("hash", "S:" + b"text".hex(), "N", "VU:", "U:7"), lambda: call("hmac", rbytes(rng, 32), rbytes(rng, 40), "512", "1"),
                lambda: call("nonces", 5, "-", "g:1", "n", "n"), lambda: call("copies", "p", json.dumps(["5", True]).encode(), json.dumps(["6", False]).encode(), True, "c:0:2", "a:1:2", "l:0:3")
                if "egobj" in exe else None]
        heavy = [lambda: call("enc_sel", json.dumps(dict(id="a", vote=1, writein="")).encode(), b"a", b"c", "0", s.K, s.ext, 5, False, False),
                 lambda: call("dmake", *[int(x, 16) for x in (call("enc", "1", 5, False, s.K) or ["1", "1"])], 5, False, s.K, s.ext, "-", "1"),
                 lambda: call("cmake", *[int(x, 16) for x in (call("enc", "1", 5, False, s.K) or ["1", "1"])], 5, False, s.K, 6, s.ext, "1"),
                 lambda: call("enc_ballot", "cb2", "pb", s.int, s.ctx, 3, "-", "9", False)]
        for k, j in enumerate(jobs):
            if k % n == i or (k + 3) % n == i: j()
        heavy[i % len(heavy)]()
        for k, f, doc in muts:
            if call("load", k, "x", f, doc) is not None:
                call("dump", k, "x")
                call("ser", k, "x", f)
        obs.ev("Memcheck session", i)
    except c.Died as ex:
        obs.bad("under Memcheck: %s" % ex, sig="memcheck/died", report=d.stderr()[-6000:])
    d.close()


def run(ck):
    exe = c.egobj("asan")
    ck.shards(work, exe, ck.scale(80, 800), ck.scale(16, 120), ck.scale(120, 1800), ck.scale(30, 250))
    ck.shards(memcheck, c.egobj("plain"), ck.scale(6, 60))
