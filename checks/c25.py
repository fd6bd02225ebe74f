"""C25: the same call gives the same answer whatever happened before, and reading changes nothing."""
import copy, json
import common as c
import elect as e
import oracle as o
from checks import c20
from oracle import Q, P, G, powm

RULE = ("long random histories in one process (arithmetic with many accelerated bases, hashing, proofs, two elections that share all their "
        "identifiers but differ in content, ballots of equal identifiers, refused ballots, damaged documents, failing decryptions and "
        "verifications, serialisation, compact ballots, mediators); between them calls without randomness are repeated, and each answer "
        "compared with the one a process gives that has made no other call; the complete content of the objects read is compared with their "
        "content at the beginning; distinct by (call, the calls before it)")
ASSUMPTIONS = ["a new process has no history", "calls whose answer is random by definition are compared without the random part"]


def twin(rng, m):
    """an election with the same identifiers and other content"""
    t = copy.deepcopy(m)
    for x in t["candidates"]:
        if rng.random() < 0.6: x["writein"] = not x["writein"]
    for k in t["contests"]:
        seqs = [s["seq"] for s in k["sels"]]
        rng.shuffle(seqs)
        for s, q in zip(k["sels"], seqs): s["seq"] = q
        if rng.random() < 0.5: k["name"] = k["name"] + "'"
        if len(k["sels"]) > 1 and rng.random() < 0.5:
            k["n"] = rng.randint(1, len(k["sels"]))
            if k["votes"]: k["votes"] = max(k["votes"], k["n"])
    t["scope"] += "'"
    return in_order(t)


def in_order(m):
    """lists in sequence order, as they are after reading them back (the known finding of C14 is not repeated here)"""
    m["contests"].sort(key=lambda k: k["seq"])
    for k in m["contests"]: k["sels"].sort(key=lambda s: s["seq"])
    return m


class Side:
    """one election: its documents, which are loaded into every process"""
    def __init__(self, d, rng, m, n, ids):
        self.n = n
        self.ss = ss = e.Session(d, rng, m, name=n)
        self.m = m
        self.b = e.ballot(rng, m)
        if ids: self.b["id"] = ids
        d.call("pb_build", "pb" + n, json.dumps(self.b).encode())
        self.nonce, self.seed = rng.randrange(1, Q), rng.randrange(1, Q)
        d.call("enc_ballot", "cb" + n, "pb" + n, ss.int, ss.ctx, self.seed, self.nonce, "99", False)
        d.call("sb_from", "sb" + n, "cb" + n, "1")
        d.call("enc_compact", "cc" + n, "pb" + n, ss.int, ss.ctx, self.seed, self.nonce, "99", False)
        self.docs = [(k, k + n, "j", d.call("ser", k, k + n, "j", *(["1"] if k == "cb" else []))[0]) for k in ("man", "int", "ctx", "dev", "pb", "cb", "sb", "cc")]
        self.setup = [c.line("load", k, nm, f, doc) for k, nm, f, doc in self.docs]

    def probes(self, rng):
        n, ss, m = self.n, self.ss, self.m
        L = [c.line("man_hash", "man" + n), c.line("man_valid", "man" + n)]
        L += [c.line("ser", k, k + n, f) for k in ("man", "int", "pb", "sb", "cc") for f in "jbm"]
        L += [c.line("ser", k, k + n, f) for k in ("ctx", "dev") for f in "jb"]
        L += [c.line("ser", "cb", "cb" + n, f, w) for f in "jbm" for w in "01"]
        L += self.reads()
        L += [c.line("cb_calc", "cb" + n), c.line("cb_valid", "cb" + n, ss.mh, ss.K, ss.ext), c.line("cb_valid", "cb" + n, ss.mh ^ 1, ss.K, ss.ext),
              c.line("cb_valid", "cb" + n, ss.mh, ss.K, ss.ext ^ 1), c.line("cb_valid", "cb" + n, ss.mh, ss.K * G % P, ss.ext)]
        for st in m["styles"]: L += [c.line("int_for", "int" + n, st["id"].encode()), c.line("int_style", "int" + n, st["id"].encode())]
        L += [c.line("int_style", "int" + n, b"none"), c.line("int_for", "int" + n, b"none")]
        k = rng.choice(m["contests"])
        s = rng.choice(k["sels"])
        given = dict(id=k["id"], sels=[dict(id=s["id"], vote=1, writein="w")])
        r = rng.randrange(1, Q)
        L += [c.line("enc_contest", json.dumps(given).encode(), "int" + n, k["id"].encode(), ss.K, ss.ext, r, False),
              c.line("enc_contests", "pb" + n, "int" + n, "ctx" + n, r, False),
              c.line("pc_valid", json.dumps(given).encode(), k["id"].encode(), str(len(k["sels"])), str(k["n"]), str(k["votes"]), True),
              c.line("int_for", "int" + n, b"")]
        return L

    def reads(self):
        return [c.line("dump", k, k + self.n) for k in ("man", "int", "ctx", "dev", "pb", "cb", "sb", "cc")]

    def chains(self, rng):
        """sequences of calls of which the last answers"""
        n, ss = self.n, self.ss
        r, sd = rng.randrange(1, Q), rng.randrange(1, Q)
        return [[c.line("enc_ballot", "x", "pb" + n, "int" + n, "ctx" + n, sd, r, "7", rng.random() < 0.2), c.line("dump", "cb", "x")],
                [c.line("enc_compact", "x", "pb" + n, "int" + n, "ctx" + n, sd, r, "7", False), c.line("dump", "cc", "x")],
                [c.line("cc_expand", "x", "cc" + n, "int" + n, "ctx" + n), c.line("dump", "cb", "x")],
                [c.line("int_make", "x", "man" + n), c.line("dump", "int", "x")],
                [c.line("sb_from", "x", "cb" + n, "2"), c.line("ser", "sb", "x", "j")],
                ] + [self.altered(rng) for _ in range(4)] + [
                [c.line("load", *self.docs[5]), c.line("cb_valid", "cb" + n, ss.mh, ss.K, ss.ext)]]

    def altered(self, rng):
        """an altered document, judged and read twice"""
        k = rng.choice(["cb", "cb", "cb", "man", "sb"])
        doc = json.loads(bytes.fromhex([x for x in self.docs if x[0] == k][0][3]))
        for _ in range(rng.choice([1, 1, 2])):
            leaves = []

            def walk(x):
                for q in (x if isinstance(x, dict) else range(len(x))):
                    if isinstance(x[q], (dict, list)): walk(x[q])
                    else: leaves.append((x, q))
            walk(doc)
            x, q = rng.choice(leaves)
            v = x[q]
            if isinstance(v, bool): x[q] = not v
            elif isinstance(v, int): x[q] = v + 1
            elif isinstance(v, str) and v and set(v) <= set("0123456789ABCDEFabcdef"):
                t = rng.randrange(len(v))
                x[q] = v[:t] + "%X" % (int(v[t], 16) ^ rng.randrange(1, 16)) + v[t + 1:]
            elif isinstance(v, str): x[q] = v + "x"
        judge = {"cb": c.line("cb_valid", "x", self.ss.mh, self.ss.K, self.ss.ext), "man": c.line("man_valid", "x"), "sb": c.line("dump", "sb", "x")}[k]
        extra = {"cb": [c.line("cb_calc", "x"), c.line("ser", "cb", "x", "j", "1")], "man": [c.line("man_hash", "x")], "sb": [c.line("ser", "sb", "x", "j")]}[k]
        read = c.line("dump", k, "x")
        return [c.line("load", k, "x", "j", json.dumps(doc).encode().hex()), read, judge] + extra + [read, judge] + extra + [read]

    def noise(self, rng):
        """calls that ought to leave no trace, many of which fail"""
        n, ss, m = self.n, self.ss, self.m
        t = "t%d" % rng.randrange(3)
        k = rng.randrange(15)
        b = e.ballot(rng, m)
        if rng.random() < 0.5: b["id"] = self.b["id"]
        L = [c.line("pb_build", t, json.dumps(b).encode())]
        enc = lambda ctx, v: c.line("enc_ballot", t, t, "int" + n, ctx, rng.randrange(1, Q), rng.randrange(1, Q), "5", v)
        if k == 0: L += [enc("ctx" + n, rng.random() < 0.2), c.line("ser", "cb", t, rng.choice("jbm"), rng.choice("01"))]
        elif k == 1:        # a key outside the subgroup: the self-check fails
            L += [c.line("ctx_make", t, "e", "1", "1", "%01024X" % rng.choice([3, 2, P - 2]), "%064X" % 5, "%064X" % ss.mh, "-", b"null".hex()), enc(t, True)]
        elif k == 2:        # refused ballots
            b["style"] = rng.choice(["", "none", b["style"] + "x"])
            L = [c.line("pb_build", t, json.dumps(b).encode()), enc("ctx" + n, False)]
        elif k == 3:
            if b["contests"] and b["contests"][0]["sels"]: b["contests"][0]["sels"][0]["vote"] = rng.choice([2, 3, 2**40])
            if b["contests"] and rng.random() < 0.5: b["contests"][-1]["sels"] += [dict(id="u%d" % z, vote=0, writein="") for z in range(6)]
            L = [c.line("pb_build", t, json.dumps(b).encode()), enc("ctx" + n, False)]
        elif k == 4:        # damaged documents
            kind, nm, f, doc = rng.choice(self.docs)
            x = bytearray(bytes.fromhex(doc))
            for _ in range(rng.choice([1, 1, 5])): x[rng.randrange(len(x))] = rng.randrange(32, 127)
            if rng.random() < 0.3: x = x[:rng.randrange(len(x))]
            L = [c.line("load", kind, t, f, bytes(x).hex())]
        elif k == 5: L += [c.line("med_make", t, "int" + n, "ctx" + n, "dev" + n), c.line("med_encrypt", t, t, t, False), c.line("med_compact", t, t, t, False)]
        elif k == 6: L += [c.line("enc_compact", t, t, "int" + n, "ctx" + n, rng.randrange(1, Q), rng.randrange(1, Q), "5", False), c.line("cc_expand", t, t, "int" + n, "ctx" + n)]
        elif k == 7:        # a compact ballot that was altered
            q = json.loads(bytes.fromhex(self.cc)) if hasattr(self, "cc") else None
            if q:
                q["code"] = "%064X" % rng.randrange(Q)
                L = [c.line("cc_build", t, json.dumps(q).encode()), c.line("cc_expand", t, t, "int" + n, "ctx" + n)]
        elif k == 8:
            kind, nm, f, doc = rng.choice(self.docs)
            L = [c.line("load", kind, t, f, doc)] + ([c.line("cb_valid", t, ss.mh, ss.K, ss.ext)] if kind == "cb" else [c.line("dump", kind, t)])
        elif k == 9: L += [c.line("cp_make", t, t), c.line("cp_expand", t, t, "int" + n)]
        elif k == 10: L += [c.line("man_build", t, json.dumps(rng.choice([m, twin(rng, m)])).encode()), c.line("int_make", t, t), c.line("man_hash", t),
                            c.line("enc_ballot", t, t, t, "ctx" + n, 5, rng.randrange(1, Q), "5", False)]
        elif k == 11:       # a contest that does not fit
            q = rng.choice(m["contests"])
            given = dict(id=q["id"] + rng.choice(["", "x"]), sels=[dict(id=s["id"], vote=1, writein="w") for s in q["sels"]])
            if rng.random() < 0.5: given["sels"] += [dict(id="u%d" % z, vote=1, writein="") for z in range(3)]
            L = [c.line("enc_contest", json.dumps(given).encode(), "int" + n, q["id"].encode(), ss.K, ss.ext, rng.randrange(1, Q), rng.random() < 0.2),
                 c.line("pc_valid", json.dumps(given).encode(), q["id"].encode(), str(len(q["sels"])), str(q["n"]), str(q["votes"]), rng.random() < 0.5)]
        elif k == 12:       # an election with the same identifiers that is not valid
            q = copy.deepcopy(m)
            z = rng.choice(q["contests"])
            w = rng.randrange(5)
            if w == 0: z["n"] = len(z["sels"]) + 1
            elif w == 1: z["sels"][-1]["cand"] = "none"
            elif w == 2: z["district"] = "none"
            elif w == 3: q["styles"][0]["gpus"] = []
            else: z["sels"] = []
            L = [c.line("man_build", t, json.dumps(q).encode()), c.line("man_valid", t), c.line("int_make", t, t), c.line("man_hash", t)]
        elif k == 13:
            L = self.altered(rng)
        else: L += [c.line("med_make", t, "int" + n, "ctx" + ("A" if n == "B" else "B"), "dev" + n)]
        return L


def cold_noise(rng, K, s):
    L = c20.cold_ops(rng, K, s)
    r = rng.randrange(1, Q)
    a, b = powm(G, r), c.pval(rng, False)
    L += [c.line("powpq", True, powm(G, rng.randrange(1, 2**32)), r), c.line("powpq", True, c.pval(rng, False), r), c.line("p_fromhex", b"zz", False),
          c.line("q_fromhex", b"F" * 65, False), c.line("hdec", a, b"x" * 33, b"", s, r, True), c.line("henc", b"y" * 600, r, K, s, "510", False),
          c.line("dec", b, a, s), c.line("hash"), c.line("subfromq", r), c.line("p_residue", True, b)]
    return [l for l in L if not l.startswith(("pre_", "powpp"))]


def norm(line, ans):
    f = line.split("\t")
    if f[0] in ("dump", "ser") and f[2] != "x": return ans      # loaded objects: nothing random
    if f[0] == "ser" and f[1] in ("cb", "sb"): return ans        # made of a loaded one
    return c20.norm(line, ans)


def run1(d, L):
    """answers to a sequence of calls; the last one counts, refused ones before it too"""
    return d.raw(L)


def work(obs, rng, i, n, exe, count, steps):
    for it in range(count):
        if obs.full(): break
        d = c.Drv(exe)
        m = in_order(e.manifest(rng, maxc=2, maxs=3, seats=2))
        try:
            A = Side(d, rng, m, "A", None)
            B = Side(d, rng, twin(rng, m), "B", A.b["id"])
        except c.LibEx as ex:
            d.close()
            obs.bad("a fitting election was refused: %s" % ex, sig="refused", manifest=e.jdump(m))
            continue
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", manifest=e.jdump(m))
            continue
        for sd in (A, B): sd.cc = d.call("dump", "cc", "cc" + sd.n)[0]
        keys = [A.ss.key, B.ss.key]
        probes = [(sd, [l]) for sd in (A, B) for l in sd.probes(rng)] + [(sd, l) for sd in (A, B) for l in sd.chains(rng)]
        probes += [(None, [l]) for k in keys for l in cold_noise(rng, k.K, k.s)]
        reads = [(sd, [l]) for sd in (A, B) for l in sd.reads()]
        ref = {}

        def fresh(sd, L):
            """the answers of a process without a history"""
            k = json.dumps([sd.n if sd else "", L])
            if k not in ref:
                x = c.Drv(exe)
                if sd:
                    for l in sd.setup:
                        a = x.raw([l])[0]
                        if not a.startswith("ok"): raise c.LibEx("", "loading what was saved: " + a)
                ref[k] = run1(x, L)
                x.close()
            return ref[k]

        d.restart()
        hist = []
        case = dict(manifest=e.jdump(m))

        def probe(sd, L):
            want = fresh(sd, L)
            for rep in range(rng.choice([1, 1, 2])):
                got = run1(d, L)
                for l, g, w in zip(L, got, want):
                    g, w = norm(l, g), norm(l, w)
                    if w is None or w.startswith("bad"): continue      # an earlier call of the chain was refused, and that was compared
                    name = l.split("\t")[0]
                    obs.ev("repeated " + name, l + str(len(hist)) + "".join(hist[-3:]), sample="%s after %d calls" % (l[:80], len(hist)))
                    if g != w:
                        obs.bad("%s gives %s after %d other calls, %s in a new process" % (l[:120], diff(g, w), len(hist), "another answer"), sig="history",
                                got=g, fresh=w, call=l, history="\n".join(x[:300] for x in hist[-40:]), **case)
                said = {}
                for l, g in zip(L, got):
                    if said.setdefault(l, g) != g:
                        obs.bad("%s gives %s when repeated" % (l[:120], diff(g, said[l])), sig="repeat", first=said[l], second=g, calls=[x[:2000] for x in L], **case)
                hist.extend(L)
        try:
            for sd in (A, B):
                for l in sd.setup:
                    a = d.raw([l])[0]
                    if not a.startswith("ok"): raise c.LibEx("", "loading what was saved: " + a)
            first = probes[:]
            rng.shuffle(first)
            for step in range(steps):
                if obs.full(): break
                r = rng.random()
                if r < 0.45:
                    L = rng.choice([A, B]).noise(rng)
                elif r < 0.8:
                    k = rng.choice(keys) if rng.random() < 0.4 else e.Keys(rng)
                    if len(keys) < 12 and k not in keys: keys.append(k)
                    L = [rng.choice(cold_noise(rng, k.K, k.s)) for _ in range(rng.randint(1, 4))]
                else:
                    L = rng.choice(probes)[1]
                ans = run1(d, L)
                for l, a in zip(L, ans):
                    if a.startswith("bad") and "no object" not in a: raise RuntimeError("harness: %s -> %s" % (l[:200], a[:200]))
                    obs.note("calls before" + (" that failed" if a.startswith("ex") else ""))
                hist += L
                for _ in range(rng.choice([0, 1, 2, 3])):
                    probe(*(first.pop() if first else rng.choice(probes)))
                if rng.random() < 0.2: probe(*rng.choice(reads))
            for x in reads: probe(*x)
            obs.ev("history", "".join(hist)[:4000], sample="%d calls" % len(hist))
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", history="\n".join(x[:300] for x in hist[-40:]), **case)
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **case)
        d.close()

# ---- programs over live objects -----------------------------------------------------------------
class Prog:
    """a random program whose answers are known; operations are repeated with the same objects"""
    def __init__(self, rng, keys):
        self.rng, self.ops, self.want = rng, [], []
        self.p, self.q, self.c, self.h, self.d, self.k = [], [], [], [], [], []      # what is known of every object
        self.kind = {}
        self.keys = keys
        self.ki, self.si = [], []
        for key in keys:
            self.ki.append(len(self.p)); self.op("P:%X%s" % (key.K, rng.choice(["", ":f"])), self.newp(key.K))
            if self.ops[-1].endswith("f"): self.p[-1][1] = True; self.want[-1] += "f"
            self.si.append(len(self.q)); self.op("Q:%X" % key.s, self.newq(key.s))
        for _ in range(2):
            v = rng.choice([c.subgroup(rng), c.pval(rng, False)]); self.op("P:%X" % v, self.newp(v))
            v = c.qval(rng, False); self.op("Q:%X" % v, self.newq(v))

    def op(self, text, want):
        self.ops.append(text)
        self.want.append(want)

    def sp(self, v, f=False): return "%01024X" % v + ("f" if f else "")
    def sq(self, v): return "%064X" % v
    def newp(self, v): self.p.append([v, False]); return self.sp(v)
    def newq(self, v): self.q.append(v); return self.sq(v)
    def newc(self, pad, data, info=None): self.c.append((pad, data, info)); return self.sp(pad) + "/" + self.sp(data)

    def step(self):
        rng = self.rng
        P_ = lambda: rng.randrange(len(self.p))
        Q_ = lambda: rng.randrange(len(self.q))
        i, j = P_(), P_()
        x, y, z = Q_(), Q_(), Q_()
        pv, qv = lambda a: self.p[a][0], lambda a: self.q[a]
        w = rng.randrange(len(self.keys))
        K, s = self.keys[w].K, self.keys[w].s
        Ki, si = self.ki[w], self.si[w]
        n = rng.choice(["addp", "mulp", "mulv", "modp", "powq", "powq", "powp", "gq", "qtop", "addq", "addv", "subq", "apbc", "subf", "cmpp", "cmpq", "resid",
                        "hexp", "hexq", "hash", "hash", "nonce", "enc", "enc", "cadd", "dec", "henc", "hdec", "hdec", "dmake", "dvalid", "cmake", "cvalid", "fix", "clonep", "cloneq"])
        if n == "addp": self.op("addp:%d:%d" % (i, j), self.newp((pv(i) + pv(j)) % P))
        elif n == "mulp": self.op("mulp:%d:%d" % (i, j), self.newp(pv(i) * pv(j) % P))
        elif n == "mulv":
            l = [rng.choice(["p%d" % P_(), "q%d" % Q_()]) for _ in range(rng.randint(1, 5))]
            v = 1
            for t in l: v = v * (pv(int(t[1:])) if t[0] == "p" else qv(int(t[1:]))) % P
            self.op("mulv:" + ",".join(l), self.newp(v))
        elif n == "modp": self.op("modp:%d" % i, self.newp(pv(i) % P))
        elif n == "powq": self.op("powq:%d:%d" % (i, x), self.newp(powm(pv(i) % P, qv(x))))
        elif n == "powp":
            j = min(range(len(self.p)), key=lambda k: (self.p[k][0].bit_length() > 300, rng.random()))
            self.op("powp:%d:%d" % (i, j), self.newp(powm(pv(i) % P, pv(j))))
        elif n == "gq": self.op("gq:%d" % x, self.newp(powm(G, qv(x))))
        elif n == "qtop": self.op("qtop:%d" % x, self.newp(qv(x)))
        elif n == "addq": self.op("addq:%d:%d" % (x, y), self.newq((qv(x) + qv(y)) % Q))
        elif n == "addv":
            l = [Q_() for _ in range(rng.randint(1, 6))]
            self.op("addv:" + ",".join(map(str, l)), self.newq(sum(map(qv, l)) % Q))
        elif n == "subq": self.op("subq:%d:%d" % (x, y), self.newq((qv(x) - qv(y)) % Q))
        elif n == "apbc": self.op("apbc:%d:%d:%d" % (x, y, z), self.newq((qv(x) + qv(y) * qv(z)) % Q))
        elif n == "subf" and qv(x): self.op("subf:%d" % x, self.newq((Q - qv(x)) % Q))
        elif n == "cmpp": self.op("cmpp:%d:%d" % (i, j), "%d%d%d" % (pv(i) == pv(j), pv(i) < pv(j), 0 < pv(i) < P))
        elif n == "cmpq": self.op("cmpq:%d:%d" % (x, y), "%d%d%d" % (qv(x) == qv(y), qv(x) < qv(y), 0 < qv(x) < Q))
        elif n == "resid": self.op("resid:%d" % i, "%d" % o.residue(pv(i)))
        elif n == "hexp": self.op("hexp:%d" % i, o.hx(pv(i)) + "/" + o.pb(pv(i)).hex())
        elif n == "hexq": self.op("hexq:%d" % x, o.hx(qv(x)) + "/" + o.qb(qv(x)).hex())
        elif n == "hash":
            l, v = [], []
            for _ in range(rng.randint(1, 5)):
                t = rng.choice("pqch")
                bag = dict(p=self.p, q=self.q, c=self.c, h=self.h)[t]
                if not bag: continue
                a = rng.randrange(len(bag))
                l.append(t + str(a))
                v.append(o.PE(bag[a][0]) if t == "p" else o.QE(bag[a]) if t == "q" else o.QE(o.H(o.PE(bag[a][0]), o.PE(bag[a][1]))) if t == "c" else o.QE(bag[a][3]))
            if l: self.op("hash:" + ":".join(l), self.newq(o.H(*v)))
        elif n == "nonce":
            a = rng.randrange(1000)
            self.op("nonce:%d:%d:%d" % (x, y, a), self.newq(o.Nonces(qv(x), o.QE(qv(y))).get(a)))
        elif n == "enc":
            if qv(x) == 0: return
            m = rng.choice([0, 1, 1, 2, 7])
            pad, data = o.enc(m, qv(x), K)
            self.op("enc:%d:%d:%d" % (m, x, Ki), self.newc(pad, data, (m, qv(x), w, x)))
        elif n == "cadd" and self.c:
            l = [rng.randrange(len(self.c)) for _ in range(rng.randint(1, 4))]
            a = b = 1
            for t in l: a, b = a * self.c[t][0] % P, b * self.c[t][1] % P
            self.op("cadd:" + ",".join(map(str, l)), self.newc(a, b))
        elif n == "dec":
            l = [t for t in range(len(self.c)) if self.c[t][2] and self.c[t][2][2] == w]
            if l:
                t = rng.choice(l)
                self.op("dec:%d:%d" % (t, si), str(self.c[t][2][0] if self.c[t][2][0] < 2 else 2**64 - 1))
        elif n == "henc":
            if qv(x) == 0: return
            size = rng.choice([30, 30, 62, 510])
            msg = rng.randbytes(rng.choice([0, 1, size - 1, size, rng.randrange(size)]))
            a, dt, mac = o.hashed_enc(o.hashed_pad(msg, size, False), qv(x), K, qv(y))
            self.h.append((a, dt, mac, o.H(o.PE(a), bytearray(dt), bytearray(mac)), msg, w, y))
            self.op("henc:%s:%d:%d:%d:%d" % (msg.hex(), x, Ki, y, size), "/".join([self.sp(a), dt.hex(), mac.hex()]))
        elif n == "hdec" and self.h:
            t = rng.randrange(len(self.h))
            _, _, _, _, msg, kw, sd = self.h[t]
            if rng.random() < 0.3:
                sd = Q_()
                if qv(sd) != qv(self.h[t][6]): msg = None
            self.op("hdec:%d:%d:%d" % (t, self.si[kw], sd), "ex" if msg is None else msg.hex())
        elif n == "dmake":
            l = [t for t in range(len(self.c)) if self.c[t][2] and self.c[t][2][0] < 2]
            if l:
                t = rng.choice(l)
                m, r, kw, ri = self.c[t][2]
                if qv(x) == 0 or qv(y) == 0: return
                self.d.append((t, kw, x))
                self.op("dmake:%d:%d:%d:%d:%d:%d" % (t, ri, self.ki[kw], x, y, m), None)
        elif n == "cmake":
            l = [t for t in range(len(self.c)) if self.c[t][2]]
            if l:
                t = rng.choice(l)
                m, r, kw, ri = self.c[t][2]
                if qv(x) == 0 or qv(y) == 0: return
                self.k.append((t, kw, x))
                self.op("cmake:%d:%d:%d:%d:%d:%d" % (t, ri, self.ki[kw], x, y, m), None)
        elif n in ("dvalid", "cvalid"):
            bag = self.d if n == "dvalid" else self.k
            if not bag: return
            t = rng.randrange(len(bag))
            cc, kw, h = bag[t]
            ok = True
            if rng.random() < 0.4:
                h = Q_()
                ok = qv(h) == qv(bag[t][2])
            self.op("%s:%d:%d:%d:%d" % (n, t, cc, self.ki[kw], h), "%d" % ok)
        elif n == "fix":
            a = rng.random() < 0.6
            self.p[i][1] = a
            self.op("fix:%d:%d" % (i, a), self.sp(pv(i), a))
        elif n == "clonep":
            self.p.append(list(self.p[i]))
            self.op("clonep:%d" % i, self.sp(*self.p[i]))
        elif n == "cloneq": self.op("cloneq:%d" % x, self.newq(qv(x)))
        if self.ops and rng.random() < 0.35:
            t = rng.randrange(len(self.ops))
            op = self.ops[t]
            if op.split(":")[0] in ("cmpp", "cmpq", "resid", "hexp", "hexq", "dec", "hdec", "dvalid", "cvalid"): self.op(op, self.want[t])


def programs(obs, rng, i, n, exe, count, length):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        keys = [e.Keys(rng) for _ in range(2)]
        pr = Prog(rng, keys)
        while len(pr.ops) < length: pr.step()
        try:
            a = d.raw([c.line("prog", *pr.ops)])[0].split("\t")
        except c.Died as ex:
            obs.bad("a program over live objects: %s" % ex, sig="died", program=pr.ops)
            d.restart()
            continue
        if a[0] != "ok": raise RuntimeError("harness: " + a[0] + " ".join(a[1:])[:300])
        obs.ev("program", " ".join(pr.ops)[:3000], sample=" ".join(x[:40] for x in pr.ops[:6]))
        for k, (op, want, got) in enumerate(zip(pr.ops, pr.want, a[1:])):
            name = op.split(":")[0]
            obs.ev("on live objects: " + name, op + str(it), sample=op[:80])
            if "CHANGED" in got:
                obs.bad("%s changed an object it reads: %s" % (op[:100], got[got.index("CHANGED"):]), sig="changed " + name, program=pr.ops[:k + 1])
                break
            if want is not None and got.lower() != want.lower():
                obs.bad("%s after %d operations: %s" % (op[:100], k, diff(got.lower(), want.lower())), sig="program " + name, program=pr.ops[:k + 1])
                break
    d.close()


def diff(a, b):
    a, b = str(a), str(b)
    k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r at %d (expected %r)" % (a[max(0, k - 20):k + 60], k, b[max(0, k - 20):k + 60])


def run(ck):
    ck.shards(programs, c.egpure(), ck.scale(12, 400), ck.scale(60, 150))
    ck.shards(work, c.egdrv(), ck.scale(2, 40), ck.scale(45, 300))
