"""C10: verification of encrypted ballots: honest ones accepted, tampered ones rejected, exactly as an independent verifier judges."""
import copy, itertools, json
import common as c
import elect as e
import oracle as o
from oracle import H, PE, QE, P, Q, G, powm
from checks import c06

RULE = ("encrypted ballots of random elections; every stored and recomputed hash and total against the oracle; then tampered copies: single "
        "bits of every field of selections, contests and ballot, exchanges, removals, repetitions and reorderings of selections and contests, "
        "invalid parts placed before, after and under the identifier or sequence number of valid ones, forged votes that keep the total, other "
        "manifest hash, key or election hash; each with the hashes above the change left alone or recomputed up to a chosen level. Verdicts "
        "of ballot, contest and selection verification are compared with an independent verifier; distinct by (tampering, ballot)")
ASSUMPTIONS = ["libgmp and hashlib are correct", "order of parts with equal sequence numbers is not specified"]
I, X = e.I, lambda v: "%X" % v
PROOF = ["a0", "b0", "a1", "b1", "c0", "c1", "c", "v0", "v1"]


class Judge:
    def __init__(self): self.cache = {}

    def proof(self, s, K, ext):
        if not s["proof"]: return False
        key = (s["pad"], s["data"], tuple(s["proof"]), K, ext)
        if key not in self.cache:
            pr = [I(x) for x in s["proof"]]
            self.cache[key] = all(o.disj_equations(I(s["pad"]), I(s["data"]), K, ext, pr).values())
        return self.cache[key]

    def sel(self, s, K, ext):
        return e.h_csel(s) == I(s["hash"]) and self.proof(s, K, ext)

    @staticmethod
    def orders(l):
        """every order of parts that respects the sequence numbers"""
        g = [list(v) for _, v in itertools.groupby(sorted(l, key=lambda x: x["seq"]), key=lambda x: x["seq"])]
        for t in itertools.islice(itertools.product(*[itertools.permutations(x) for x in g]), 5000):
            yield [y for x in t for y in x]

    def contest(self, k, K, ext):
        if not k["sels"] or not k["proof"] or not k["acc"]: return False
        if not any(H(k["id"], QE(I(k["dh"])), *[QE(I(s["hash"])) for s in ord]) == I(k["hash"]) for ord in self.orders(k["sels"])):
            return False
        A, B = acc(k)
        if (A, B) != (I(k["acc"][0]), I(k["acc"][1])): return False
        pr = k["proof"]
        key = (A, B, tuple(pr), K, ext)
        if key not in self.cache:
            self.cache[key] = all(o.const_equations(A, B, K, ext, [I(pr[0]), I(pr[1]), I(pr[2]), I(pr[3]), pr[4]]).values())
        return self.cache[key]

    def ballot(self, b, mh, K, ext):
        if I(b["mh"]) != mh or not b["contests"]: return False
        if not any(H(b["id"], QE(mh), *[QE(I(k["hash"])) for k in ord]) == I(b["hash"]) for ord in self.orders(b["contests"])):
            return False
        return all(self.contest(k, K, ext) and all(self.sel(s, K, ext) for s in k["sels"]) for k in b["contests"])


def ties(b):
    def t(l): return len(set(x["seq"] for x in l)) != len(l)
    return t(b["contests"]) or any(t(k["sels"]) for k in b["contests"])


def acc(k):
    A = B = 1
    for s in k["sels"]:
        A, B = A * I(s["pad"]) % P, B * I(s["data"]) % P
    return A, B


def rehash(b, level):
    """recompute the stored values of levels lo..hi: 1 selection hashes, 2 contest hashes and totals, 3 ballot hash"""
    lo, hi = level
    for k in b["contests"]:
        for s in k["sels"]:
            if lo <= 1 <= hi: s["hash"] = X(e.h_csel(s))
        if lo <= 2 <= hi and k["sels"]:
            k["acc"] = [X(v) for v in acc(k)]
            k["hash"] = X(e.h_ccontest(k))
    if lo <= 3 <= hi: b["hash"] = X(e.h_cballot(b))


NONE, ALL = (9, 0), (1, 3)
# changes that only one condition of the verifier can notice; every run tries each of them on whole ballots
ISOLATED = [("sel", f, lv) for f, lv in (("hash", (2, 3)), ("dh", (2, 3)), ("id", (2, 3)), ("hash", NONE), ("dh", (3, 3)), ("pad", ALL), ("data", ALL))]
ISOLATED += [("contest", f, lv) for f, lv in (("hash", (3, 3)), ("id", (3, 3)), ("dh", (3, 3)), ("acc0", NONE), ("acc1", NONE))]
ISOLATED += [("ballot", f, NONE) for f in ("id", "hash")] + [("ballot", "mh", ALL), ("ballot", "mh", NONE)]
ISOLATED += [("proof", j, NONE) for j in range(9)] + [("range", j, NONE) for j in range(4, 9)]
ISOLATED += [("cproof", j, NONE) for j in range(5)]
ISOLATED += [("forge", f, ALL) for f in ("challenge sum", "challenge hash", "g^v0", "K^v0", "g^v1", "g^c1 K^v1")]
ISOLATED += [(t, None, lv) for t in ("swap-id", "swap-seq", "swap-cipher", "reorder-hidden", "drop-sel", "dup-sel") for lv in (NONE, (2, 3), (3, 3))]
ISOLATED += [(t, None, lv) for t in ("drop-contest", "dup-contest", "swap-contest") for lv in (NONE, NONE, (2, 2))]
ISOLATED += [(t, None, ALL) for t in ("mask-sel", "mask-sel", "mask-contest", "mask-contest", "wrong-total", "noproof", "nocproof", "transplant")]
ISOLATED += [("stored-total", None, NONE)] * 2 + [("shrunk", j, ALL) for j in (0, 0, 1, 1, 2)]
ISOLATED += [(t, None, NONE) for t in ("noproof", "nocproof", "reorder", "unrelated", "tie-sel", "transplant")]


def flip(rng, h, bits):
    v = I(h) ^ (1 << rng.choice([0, bits - 1, rng.randrange(bits), rng.randrange(bits)]))
    return X(v)


def honest_const(rng, k, r, K, ext, L):
    """a correct proof that the total of a contest with aggregate nonce r encrypts L"""
    A, B = acc(k)
    u = rng.randrange(1, Q)
    a, b = powm(G, u), powm(K, u)
    ch = H(QE(ext), PE(A), PE(B), PE(a), PE(b))
    return [X(a), X(b), X(ch), X((u + ch * r) % Q), L]


def tamper(rng, b, ss, other, plan=None, at=None):
    """returns (kind, changed ballot); other: another honest ballot of the same election"""
    b = copy.deepcopy(b)
    ks = b["contests"]
    k = rng.choice(ks) if at is None else ks[at[0]]
    s = rng.choice(k["sels"]) if at is None else k["sels"][at[1]]
    t = rng.choice(["sel", "sel", "sel", "proof", "proof", "proof", "contest", "contest", "cproof", "ballot", "swap-id", "swap-cipher", "swap-proof",
                    "swap-seq", "drop-sel", "dup-sel", "drop-contest", "dup-contest", "swap-contest", "mask-sel", "mask-sel", "mask-contest", "mask-contest",
                    "tie-sel", "forge", "forge", "forge", "transplant", "transplant-contest", "noproof", "nocproof", "wrong-total", "range",
                    "stored-total", "shrunk", "shrunk", "move-sel", "reorder", "unrelated"])
    level = rng.choice([NONE, NONE, (1, 1), (1, 2), ALL, ALL, ALL, (2, 3), (3, 3), (2, 2)])
    sub = None
    if plan: t, sub, level = plan
    kind = t
    if t == "sel":
        f = sub or rng.choice(["pad", "data", "dh", "hash", "id"])
        kind = "sel." + f
        s[f] = (s[f] + rng.choice(["x", " "]) if rng.random() < 0.7 else s[f][:-1]) if f == "id" else flip(rng, s[f], 4096 if f in ("pad", "data") else 256)
    elif t == "proof":
        j = rng.randrange(9) if sub is None else sub
        kind = "proof." + PROOF[j]
        s["proof"][j] = flip(rng, s["proof"][j], 4096 if j < 4 else 256)
    elif t == "range":
        j = rng.randrange(4, 9) if sub is None else sub
        kind = "range." + PROOF[j]
        v = I(s["proof"][j])
        s["proof"][j] = X(v + Q if v + Q < 2**256 else rng.choice([0, Q]))
    elif t == "contest":
        f = sub or rng.choice(["dh", "hash", "id", "acc0", "acc1"])
        kind = "contest." + f
        if f == "id": k["id"] += "x"
        elif f[:3] == "acc":
            k["acc"][int(f[3])] = flip(rng, k["acc"][int(f[3])], 4096)
            level = NONE
        else: k[f] = flip(rng, k[f], 256)
    elif t == "cproof":
        j = rng.randrange(5) if sub is None else sub
        kind = "cproof.%d" % j
        k["proof"][j] = max(0, k["proof"][4] + rng.choice([1, -1, 2])) if j == 4 else flip(rng, k["proof"][j], 4096 if j < 2 else 256)
    elif t == "ballot":
        f = sub or rng.choice(["id", "hash", "mh"])
        kind = "ballot." + f
        b[f] = b[f] + "x" if f == "id" else flip(rng, b[f], 256)
    elif t.startswith("swap-") and t != "swap-contest":
        u = rng.choice(k["sels"])
        fs = {"swap-id": ["id"], "swap-cipher": rng.choice([["pad", "data"], ["pad", "data", "proof"]]), "swap-proof": ["proof"], "swap-seq": ["seq"]}[t]
        for f in fs: s[f], u[f] = u[f], s[f]
        if s is u: return None
    elif t == "swap-contest":
        u = rng.choice(ks)
        if u is k: return None
        for f in rng.choice([["id"], ["dh"], ["proof"], ["seq"], ["sels"], ["sels", "acc", "proof"], ["acc"]]): k[f], u[f] = u[f], k[f]
    elif t == "drop-sel":
        k["sels"].remove(s)
        if not k["sels"]: return None
    elif t == "dup-sel":
        u = copy.deepcopy(s)
        if rng.random() < 0.5: u["seq"] = rng.choice([0, 10**6, s["seq"]])
        k["sels"].insert(rng.randrange(len(k["sels"]) + 1), u)
    elif t == "drop-contest":
        if len(ks) < 2: return None
        ks.remove(k)
    elif t == "dup-contest":
        u = copy.deepcopy(k)
        u["seq"] = rng.choice([k["seq"], k["seq"] + 1, 2**40])
        ks.append(u)
    elif t == "mask-sel":
        # an invalid selection beside the valid ones, sharing identifier or sequence number with one
        u = copy.deepcopy(s)
        if rng.random() < 0.5: u["proof"][rng.randrange(4, 9)] = X(rng.randrange(1, Q))
        else: u["data"] = X(I(u["data"]) * G % P)
        u["seq"] = rng.choice([s["seq"], s["seq"] + 1, 0, 2**33])
        if rng.random() < 0.3: u["id"] += "y"
        k["sels"].insert(rng.randrange(len(k["sels"]) + 1), u)
        rehash(b, ALL)
        k["proof"] = honest_const(rng, k, sum(I(x["nonce"]) for x in k["sels"]) % Q, ss.K, ss.ext, k["proof"][4])
    elif t == "mask-contest":
        u = copy.deepcopy(k)
        w = rng.random()
        if w < 0.4: u["proof"][rng.choice([2, 3])] = X(rng.randrange(1, Q))
        elif w < 0.7: rng.choice(u["sels"])["proof"][rng.randrange(4, 9)] = X(rng.randrange(1, Q))
        else: u["proof"][4] += 1
        u["seq"] = rng.choice([k["seq"], k["seq"] + 1, 0, 2**33])
        if rng.random() < 0.3: u["id"] += "y"
        ks.insert(rng.randrange(len(ks) + 1), u)
        level = ALL
    elif t == "tie-sel":
        for x in k["sels"]: x["seq"] = s["seq"]
        level = rng.choice([NONE, (2, 2)])
        rng.shuffle(k["sels"])
    elif t == "forge":
        # votes outside {0,1} that keep the total, with proofs in which one condition fails
        if len(k["sels"]) < 2: return None
        u, w = rng.sample(k["sels"], 2)
        ck = sub or rng.choice(["challenge sum", "challenge hash", "g^v0", "K^v0", "g^v1", "g^c1 K^v1"])
        kind = "forge " + ck
        for x, dm in ((u, 1), (w, Q - 1)):
            st = c06.Stmt(rng, ss.s, ss.K, 0)
            st.r = I(x["nonce"])
            st.m = (e.vote_of(I(x["pad"]), I(x["data"]), ss.s) + dm) % Q
            st.alpha, st.beta = o.enc(st.m, st.r, ss.K)
            st.q = ss.ext
            x["pad"], x["data"] = X(st.alpha), X(st.beta)
            x["proof"] = [X(v) for v in (c06.honest(rng, st) if st.m in (0, 1) else c06.forge(rng, st, ck))]
        level = ALL
    elif t == "transplant":
        # a selection of another ballot, with its proof
        ok = rng.choice(other["contests"])
        u = copy.deepcopy(rng.choice(ok["sels"]))
        for f in rng.choice([["pad", "data", "proof"], ["pad", "data"], ["proof"], ["pad", "data", "proof", "hash"], ["hash"], ["dh"]]): s[f] = u[f]
    elif t == "transplant-contest":
        u = copy.deepcopy(rng.choice(other["contests"]))
        for f in rng.choice([["sels"], ["sels", "acc", "proof"], ["proof"], ["acc"], ["hash"], ["acc", "proof"], ["dh"]]): k[f] = u[f]
    elif t == "noproof": s["proof"] = None
    elif t == "nocproof": k["proof"] = None
    elif t == "wrong-total":
        # one vote flipped with an honest proof, everything above recomputed except the contest proof
        st = c06.Stmt(rng, ss.s, ss.K, 0)
        st.r, st.q = I(s["nonce"]), ss.ext
        st.m = 1 - e.vote_of(I(s["pad"]), I(s["data"]), ss.s)
        st.alpha, st.beta = o.enc(st.m, st.r, ss.K)
        s["pad"], s["data"], s["proof"] = X(st.alpha), X(st.beta), [X(v) for v in c06.honest(rng, st)]
        level = ALL
    elif t == "stored-total":
        # one vote flipped with an honest proof; the stored total and its proof stay those of the honest contest
        st = c06.Stmt(rng, ss.s, ss.K, 0)
        st.r, st.q = I(s["nonce"]), ss.ext
        st.m = 1 - e.vote_of(I(s["pad"]), I(s["data"]), ss.s)
        st.alpha, st.beta = o.enc(st.m, st.r, ss.K)
        s["pad"], s["data"], s["proof"] = X(st.alpha), X(st.beta), [X(v) for v in c06.honest(rng, st)]
        old = k["acc"]
        rehash(b, ALL)
        k["acc"] = old
        level = NONE
    elif t == "shrunk":
        # every other contest cut down to one selection with a correct proof of its total; this one's proof is spoilt
        if len(ks) < 2: return None
        for x in ks:
            if x is k: continue
            y = rng.choice(x["sels"])
            x["sels"] = [y]
            x["acc"] = [X(v) for v in acc(x)]
            x["proof"] = honest_const(rng, x, I(y["nonce"]), ss.K, ss.ext, e.vote_of(I(y["pad"]), I(y["data"]), ss.s))
        w = rng.randrange(3) if sub is None else sub
        if w == 0: s["proof"][rng.randrange(4, 9)] = X(rng.randrange(1, Q))
        elif w == 1: k["proof"][rng.choice([2, 3])] = X(rng.randrange(1, Q))
        k["seq"] = rng.choice([k["seq"], -1 % 2**31 if rng.random() < 0.3 else 0])
        level = ALL
    elif t == "move-sel":
        if len(ks) < 2: return None
        u = rng.choice([x for x in ks if x is not k])
        k["sels"].remove(s)
        u["sels"].append(s)
        if not k["sels"]: return None
    elif t == "reorder":
        # stored in another order; the content is the same
        rng.shuffle(ks)
        for x in ks: rng.shuffle(x["sels"])
        level = NONE
    elif t == "reorder-hidden":
        # sequence numbers exchanged between contests
        if len(ks) < 2: return None
        u, w = rng.sample(ks, 2)
        u["seq"], w["seq"] = w["seq"], u["seq"]
    elif t == "unrelated":
        # values that the verified content does not include
        b["ts"] = rng.randrange(2**40)
        b["code"], b["seed"] = X(rng.randrange(Q)), X(rng.randrange(Q))
        b["style"] += "x"
        level = NONE
    rehash(b, level)
    return kind + ("/-" if level == NONE else "/%d-%d" % level), b


def work(obs, rng, i, n, exe, count, per):
    d = c.Drv(exe)
    plan = ISOLATED[i::n]
    for it in range(count + 4):
        if obs.full() or (it >= count and not plan): break
        m = e.manifest(rng, maxc=rng.choice([1, 2, 2]), maxs=rng.choice([1, 2, 2]), seats=1)
        J = Judge()
        try:
            ss = e.Session(d, rng, m)
            bs = []
            for w in range(2):
                b = e.ballot(rng, m)
                ss.load(b)
                bs.append(ss.encrypt(out="cb%d" % w, nonce=rng.randrange(1, Q), verify=False))
                calc = json.loads(bytes.fromhex(d.call("cb_calc", "cb%d" % w)[0]))
                hashes(obs, ss, bs[-1], calc, rng, d)
            made(obs, ss, rng.choice(bs), rng, d)
            for w, cb in enumerate(bs):
                case = dict(manifest=e.jdump(m), ballot=e.jdump(cb))
                mh, K, ext = ss.mh, ss.K, ss.ext
                v = d.call("cb_valid", "cb%d" % w, mh, K, ext)[0] == "1"
                obs.ev("honest ballot", e.jdump(cb), sample=cb["id"])
                if not (v and J.ballot(cb, mh, K, ext)):
                    obs.bad("an honest ballot is judged %s by the library, %s by the oracle" % (v, J.ballot(cb, mh, K, ext)), sig="honest", **case)
                # submitted
                d.call("sb_from", "sb", "cb%d" % w, rng.choice(["1", "2", "999"]))
                if d.call("sb_valid", "sb", mh, K, ext)[0] != "1":
                    obs.bad("an honest submitted ballot is rejected", sig="submitted", **case)
                obs.ev("honest submitted", e.jdump(cb))
                elsewhere(obs, rng, d, ss, "cb%d" % w, cb, case)
                for _ in range(per):
                    p = plan.pop() if plan else None
                    r = tamper(rng, cb, ss, bs[1 - w], p)
                    if not r:
                        if p: plan.insert(0, p)
                        continue
                    kind, tb = r
                    scope = rng.choice(["ballot", "ballot", "contest", "selection"]) if not p else "ballot"
                    judge(obs, rng, d, J, kind, tb, cb, mh, K, ext, scope, case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", manifest=e.jdump(m))
            d.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", manifest=e.jdump(m))
    d.close()


def every_place(obs, rng, i, n, exe, many):
    """long contests and long ballots: a change in any one selection or contest is noticed"""
    d = c.Drv(exe)
    for shape in ("sels", "contests"):
        m = e.manifest(rng, wide=shape)
        J = Judge()
        try:
            ss = e.Session(d, rng, m)
            ss.load(e.ballot(rng, m))
            cb = ss.encrypt(nonce=rng.randrange(1, Q), verify=False)
            case = dict(manifest=e.jdump(m), ballot=e.jdump(cb))
            places = [(a, b) for a, k in enumerate(cb["contests"]) for b in range(len(k["sels"]))]
            obs.ev("long ballot", e.jdump(m), sample="%d contests, %d selections" % (len(cb["contests"]), len(places)))
            if i == 0 and not (d.call("cb_valid", "cb", ss.mh, ss.K, ss.ext)[0] == "1" and J.ballot(cb, ss.mh, ss.K, ss.ext)):
                obs.bad("an honest ballot is judged invalid", sig="honest", **case)
            pick = [places[-1]] + rng.sample(places, min(len(places), many))
            for a in pick[i % 2:]:
                how = rng.choice([("proof", rng.randrange(4, 9), NONE), ("proof", rng.randrange(4), NONE), ("sel", "hash", (2, 3)), ("sel", "data", ALL),
                                  ("noproof", None, NONE), ("cproof", rng.randrange(5), NONE), ("contest", "dh", (3, 3))])
                if rng.random() < 0.6: how = ("proof", rng.randrange(4, 9), NONE)
                r = tamper(rng, cb, ss, cb, how, a)
                if r: judge(obs, rng, d, J, r[0] + " at one place of a long ballot", r[1], cb, ss.mh, ss.K, ss.ext, "ballot", case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", manifest=e.jdump(m))
            d.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", manifest=e.jdump(m))
    d.close()


def elsewhere(obs, rng, d, ss, name, cb, case):
    """an honest ballot against another manifest hash, key or election hash"""
    for what in ("manifest hash", "key", "election hash"):
        mh, K, ext = ss.mh, ss.K, ss.ext
        if what == "manifest hash": mh ^= 1 << rng.randrange(255)
        elif what == "key": K = rng.choice([c.subgroup(rng), ss.K * G % P, ss.K * ss.K % P])
        else: ext ^= 1 << rng.randrange(255)
        v = d.call("cb_valid", name, mh, K, ext)[0] == "1"
        obs.ev("other " + what, e.jdump([name, cb, mh, K, ext]))
        if v: obs.bad("a ballot is accepted against another %s" % what, sig="other", **case)


def verdict(d, cmd, doc, a, K, ext):
    try:
        return d.call(cmd, json.dumps(doc).encode(), a, K, ext)[0] == "1"
    except c.LibEx:
        return False


def judge(obs, rng, d, J, kind, tb, cb, mh, K, ext, scope, case):
    case = dict(case, tampered=e.jdump(tb), kind=kind)
    if scope == "ballot":
        v = verdict(d, "cbj_valid", tb, mh, K, ext)
        w = J.ballot(tb, mh, K, ext)
        tie = ties(tb)
    else:
        # the parts that differ from the honest ballot
        ks = [k for k in tb["contests"] if k not in cb["contests"]] or tb["contests"]
        k = rng.choice(ks)
        honest = [s for x in cb["contests"] for s in x["sels"]]
        if scope == "contest":
            v = verdict(d, "cc_valid", k, I(k["dh"]), K, ext)
            w = J.contest(k, K, ext)
            tie = len(set(s["seq"] for s in k["sels"])) != len(k["sels"])
            if rng.random() < 0.2:
                if verdict(d, "cc_valid", k, I(k["dh"]) ^ 1, K, ext): obs.bad("contest accepted for another description hash", sig="dh", **case)
        else:
            s = rng.choice([s for s in k["sels"] if s not in honest] or k["sels"])
            v = verdict(d, "cs_valid", s, I(s["dh"]), K, ext)
            w = J.sel(s, K, ext)
            tie = False
            if rng.random() < 0.2:
                if verdict(d, "cs_valid", s, I(s["dh"]) ^ 1, K, ext): obs.bad("selection accepted for another description hash", sig="dh", **case)
    obs.ev("%s %s" % (scope, kind), e.jdump(tb) + scope, sample=kind)
    obs.note("%s verdicts %s" % (scope, "accept" if w else "reject"))
    if v and not w:
        obs.bad("%s with %s is accepted, an independent verifier rejects it" % (scope, kind), sig="accepted", **case)
    elif w and not v and not tie:
        obs.bad("%s with %s is rejected, an independent verifier accepts it" % (scope, kind), sig="rejected", **case)


def hashes(obs, ss, cb, calc, rng, d):
    case = dict(manifest=e.jdump(ss.m), ballot=e.jdump(cb))
    for k, ck in zip(cb["contests"], calc["contests"]):
        for s, cs in zip(k["sels"], ck["sels"]):
            w = e.h_csel(s)
            obs.ev("selection hash", s["pad"])
            if I(s["hash"]) != w or I(cs) != w: obs.bad("selection hash %s / %s, expected %X" % (s["hash"], cs, w), sig="hash", **case)
        w = e.h_ccontest(k, stored=False)
        obs.ev("contest hash", k["hash"])
        if I(k["hash"]) != w or I(ck["hash"]) != w: obs.bad("contest hash %s / %s, expected %X" % (k["hash"], ck["hash"], w), sig="hash", **case)
        A, B = acc(k)
        for g in (k["acc"], ck["acc"]):
            if (I(g[0]), I(g[1])) != (A, B): obs.bad("accumulated total differs from the product", sig="acc", **case)
        if I(ck["agg"]) % Q != sum(I(s["nonce"]) for s in k["sels"]) % Q: obs.bad("aggregate nonce differs from the sum", sig="agg", **case)
        obs.ev("total", k["acc"][0])
    w = H(cb["id"], QE(ss.mh), *[QE(e.h_ccontest(k, stored=False)) for k in sorted(cb["contests"], key=lambda k: k["seq"])])
    obs.ev("ballot hash", cb["hash"])
    if I(cb["hash"]) != w or I(calc["hash"]) != w: obs.bad("ballot hash %s / %s, expected %X" % (cb["hash"], calc["hash"], w), sig="hash", **case)
    # made from contests in any order
    sh = copy.deepcopy(cb)
    rng.shuffle(sh["contests"])
    for k in sh["contests"]: rng.shuffle(k["sels"])
    d.call("cb_make", "mk", json.dumps(sh).encode())
    r = ss.dump("cb", "mk")
    obs.ev("made from contests", e.jdump(sh))
    if I(r["hash"]) != w: obs.bad("ballot made of the same contests in another order has hash %s, expected %X" % (r["hash"], w), sig="make", **case)


def made(obs, ss, cb, rng, d):
    """selections and contests made from their parts by the public makers, with parts given or absent"""
    case = dict(manifest=e.jdump(ss.m), ballot=e.jdump(cb))
    k = copy.deepcopy(rng.choice(cb["contests"]))
    for s in rng.sample(k["sels"], min(2, len(k["sels"]))):
        v = e.vote_of(I(s["pad"]), I(s["data"]), ss.s)
        for way in ("random", "seeded", "no proof", "kept proof", "no nonce", "random, no nonce"):
            t = dict(s)
            keep = rng.random() < 0.3
            if keep: t["hash"] = X(rng.randrange(Q))
            else: t["hash"] = None
            if "no nonce" in way: t["nonce"] = None
            seed = "-" if way in ("random", "no proof", "random, no nonce") else "%x" % rng.randrange(1, Q)
            try:
                r = json.loads(bytes.fromhex(d.call("sel_make", json.dumps(t).encode(), ss.K, ss.ext, seed, str(v), way in ("random", "kept proof", "random, no nonce"))[0]))
            except c.LibEx as ex:
                obs.bad("selection maker (%s) refuses: %s" % (way, ex), sig="make", **case)
                continue
            obs.ev("selection made, " + way, s["pad"] + way)
            want = dict(s, hash=t["hash"] if keep else X(e.h_csel(s)), nonce=t["nonce"])
            diff = [f for f in ("id", "seq", "dh", "pad", "data", "ph", "hash", "nonce")
                    if (I(r[f]) != I(want[f]) if f in ("dh", "pad", "data", "hash") or f == "nonce" and None not in (r[f], want[f]) else r[f] != want[f])]
            if diff: obs.bad("selection maker (%s): %s differ" % (way, diff), sig="make", **case)
            if way == "no proof" or "no nonce" in way:
                if r["proof"] is not None: obs.bad("selection maker (%s) made a proof" % way, sig="make", **case)
            elif way == "kept proof":
                if [I(x) for x in r["proof"]] != [I(x) for x in s["proof"]]: obs.bad("selection maker changed the given proof", sig="make", **case)
            elif r["proof"] is None or not all(o.disj_equations(I(s["pad"]), I(s["data"]), ss.K, ss.ext, [I(x) for x in r["proof"]]).values()):
                obs.bad("selection maker (%s) made a wrong proof" % way, sig="make", **case)
            elif way == "seeded":
                again = json.loads(bytes.fromhex(d.call("sel_make", json.dumps(t).encode(), ss.K, ss.ext, seed, str(v), False)[0]))
                if again["proof"] != r["proof"]: obs.bad("selection maker: the seeded proof is not reproducible", sig="make", **case)
    L = k["proof"][4]
    for way in ("all absent", "hash given", "proof given"):
        t = copy.deepcopy(k)
        rng.shuffle(t["sels"])
        if way != "hash given": t["hash"] = None
        else: t["hash"] = X(rng.randrange(Q))
        if way != "proof given": t["proof"] = None
        r = json.loads(bytes.fromhex(d.call("cont_make", json.dumps(t).encode(), ss.K, ss.ext, rng.randrange(1, Q), str(L))[0]))
        obs.ev("contest made, " + way, k["hash"] + way)
        w = e.h_ccontest(dict(k, sels=sorted(k["sels"], key=lambda s: s["seq"])), stored=False) if t["hash"] is None else I(t["hash"])
        if I(r["hash"]) != w: obs.bad("contest maker (%s): hash %s, expected %X" % (way, r["hash"], w), sig="make", **case)
        A, B = acc(k)
        if (I(r["acc"][0]), I(r["acc"][1])) != (A, B): obs.bad("contest maker (%s): total differs" % way, sig="make", **case)
        if [s["id"] for s in r["sels"]] != [s["id"] for s in sorted(k["sels"], key=lambda s: s["seq"])] and [s["id"] for s in r["sels"]] != [s["id"] for s in t["sels"]]:
            obs.bad("contest maker (%s): selections differ" % way, sig="make", **case)
        pr = [I(x) for x in r["proof"][:4]] + [r["proof"][4]]
        if not all(o.const_equations(A, B, ss.K, ss.ext, pr).values()) or pr[4] != L: obs.bad("contest maker (%s): wrong proof" % way, sig="make", **case)
    t = copy.deepcopy(k)
    t["proof"] = None
    t["sels"][0]["nonce"] = None
    try:
        d.call("cont_make", json.dumps(t).encode(), ss.K, ss.ext, 5, str(L))
        obs.bad("a contest proof was made without the nonces of its selections", sig="make", **case)
    except c.LibEx:
        obs.ev("contest without nonces refused", k["hash"])


def huge(obs, rng, i, n, exe, many):
    """a contest with far more selections than usual: its hash and total, and tampering with single places of it"""
    d = c.Drv(exe)
    for it in range(many):
        if obs.full(): break
        m = e.manifest(rng, wide="huge")
        case = dict(manifest=e.jdump(m))
        try:
            ss = e.Session(d, rng, m)
            ss.load(e.ballot(rng, m, clean=True))
            cb = ss.encrypt(nonce=rng.randrange(1, Q), verify=False)
            hashes(obs, ss, cb, json.loads(bytes.fromhex(d.call("cb_calc", "cb")[0])), rng, d)
            k = cb["contests"][0]
            if not verdict(d, "cc_valid", k, I(k["dh"]), ss.K, ss.ext): obs.bad("an honest contest with %d selections is rejected" % len(k["sels"]), sig="rejected", **case)
            obs.ev("contest honest, very long", k["hash"], sample="%d selections" % len(k["sels"]))
            N = len(k["sels"])
            for at in {0, N - 1, N // 2, 63, 64, 65} | {rng.randrange(N) for _ in range(6)}:
                for f in ("id", "dh", "pad", "data", "drop", "swap"):
                    if at >= N: continue
                    t = copy.deepcopy(k)
                    s = t["sels"][at]
                    if f == "drop": del t["sels"][at]
                    elif f == "swap":
                        z = t["sels"][(at + 1) % N]
                        for q in ("pad", "data", "hash", "dh", "id"): s[q], z[q] = z[q], s[q]
                    elif f == "id": s["id"] += "x"
                    elif f == "dh": s["dh"] = X(I(s["dh"]) ^ 1)
                    else: s[f] = "%01024X" % (I(s[f]) * o.G % P)
                    if f in ("id", "dh", "pad", "data"): s["hash"] = X(e.h_csel(s))      # the selection is consistent in itself
                    obs.ev("contest very long, " + f, k["hash"] + f + str(at))
                    if verdict(d, "cc_valid", t, I(t["dh"]), ss.K, ss.ext):
                        obs.bad("a contest of %d selections is accepted with another %s at place %d" % (N, f, at), sig="accepted", contest=e.jdump(t), **case)
        except c.LibEx as ex:
            obs.bad("a long contest was refused: %s" % ex, sig="refused", **case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
    d.close()


def run(ck):
    ck.shards(huge, c.egdrv(), ck.scale(1, 20), n=4)
    ck.shards(work, c.egdrv(), ck.scale(3, 300), ck.scale(16, 40))
    ck.shards(every_place, c.egdrv(), ck.scale(3, 60))
