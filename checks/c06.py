"""C06: disjunctive Chaum-Pedersen proofs: completeness of every maker, soundness of the verifier."""
import common as c
import oracle as o
from common import D, line
from oracle import G, P, Q, PE, QE, powm

RULE = ("honest proofs by all makers over boundary keys, nonces and hashes; wrong statements; proofs forged so that exactly one "
        "verification condition fails (each condition in turn), single component changes, exchanges, and context changes; distinct by "
        "input; oracle: all published verification equations evaluated with big integers")
ASSUMPTIONS = ["libgmp and hashlib are correct"]
NAMES = ["a0", "b0", "a1", "b1", "c0", "c1", "c", "v0", "v1"]


def inv(x): return pow(x, -1, Q)
def rq(rng): return rng.randrange(1, Q)


class Stmt:
    """a ciphertext with known opening"""
    def __init__(self, rng, s, K, m=None):
        self.s, self.K = s, K
        self.m = rng.choice([0, 1, 2, 5, Q - 1]) if m is None else m
        self.r = rng.choice([1, Q - 1, rq(rng), rq(rng), rq(rng)])
        self.alpha, self.beta = o.enc(self.m, self.r, K)
        self.q = rng.choice([c.qval(rng, False), rq(rng)])

    def chal(self, a0, b0, a1, b1):
        return o.H(QE(self.q), PE(self.alpha), PE(self.beta), PE(a0), PE(b0), PE(a1), PE(b1))

    # branch j of the disjunction: statement alpha = g^r, beta = g^j K^r; effective exponent for the K equation
    def keq(self, j): return (self.r + (self.m - j) * inv(self.s)) % Q

    def sim(self, rng, j, cj=None, vj=None):
        cj = rq(rng) if cj is None else cj
        vj = rq(rng) if vj is None else vj
        a = powm(G, vj) * powm(self.alpha, (Q - cj) % Q) % P
        b = powm(self.K, vj) * powm(G, j * cj % Q) * powm(self.beta, (Q - cj) % Q) % P
        return a, b, cj, vj


def forge(rng, st, kind):
    """a proof for st in which exactly the named condition fails (for a statement that may be false)"""
    s0 = st.sim(rng, 0)
    s1 = st.sim(rng, 1)
    if kind == "challenge sum":
        ch = st.chal(s0[0], s0[1], s1[0], s1[1])
        return (s0[0], s0[1], s1[0], s1[1], s0[2], s1[2], ch, s0[3], s1[3])
    if kind == "challenge hash":
        ch = (s0[2] + s1[2]) % Q
        return (s0[0], s0[1], s1[0], s1[1], s0[2], s1[2], ch, s0[3], s1[3])
    if kind in ("g^v0", "K^v0"):
        u = rq(rng)
        a0, b0 = powm(G, u), powm(st.K, u)
        if kind == "g^v0": a0 = c.subgroup(rng)
        else: b0 = c.subgroup(rng)
        ch = st.chal(a0, b0, s1[0], s1[1])
        c0 = (ch - s1[2]) % Q
        v0 = (u + c0 * (st.keq(0) if kind == "g^v0" else st.r)) % Q
        return (a0, b0, s1[0], s1[1], c0, s1[2], ch, v0, s1[3])
    if kind in ("g^v1", "g^c1 K^v1"):
        u = rq(rng)
        a1, b1 = powm(G, u), powm(st.K, u)
        if kind == "g^v1": a1 = c.subgroup(rng)
        else: b1 = c.subgroup(rng)
        ch = st.chal(s0[0], s0[1], a1, b1)
        c1 = (ch - s0[2]) % Q
        v1 = (u + c1 * (st.keq(1) if kind == "g^v1" else st.r)) % Q
        return (s0[0], s0[1], a1, b1, s0[2], c1, ch, s0[3], v1)
    raise ValueError(kind)


def honest(rng, st, c_sim=None, v_sim=None):
    """a correct proof for m in {0,1}, with chosen simulated challenge/response"""
    j = st.m
    sm = st.sim(rng, 1 - j, c_sim, v_sim)
    u = rq(rng)
    a, b = powm(G, u), powm(st.K, u)
    if j == 0:
        ch = st.chal(a, b, sm[0], sm[1])
        cr = (ch - sm[2]) % Q
        return (a, b, sm[0], sm[1], cr, sm[2], ch, (u + cr * st.r) % Q, sm[3])
    ch = st.chal(sm[0], sm[1], a, b)
    cr = (ch - sm[2]) % Q
    return (sm[0], sm[1], a, b, sm[2], cr, ch, sm[3], (u + cr * st.r) % Q)


def nonresidue(rng, st, which):
    """alpha (or beta) multiplied by -1 and the commitments adapted so that all equations still hold"""
    while True:
        if which == "alpha": st.alpha = P - st.alpha
        else: st.beta = P - st.beta
        # equations hold as they stand when both challenges are even
        j = 0
        u = rq(rng)
        c1 = rq(rng) & ~1
        # simulated branch 1 with an even challenge: the sign vanishes
        al = st.alpha if which != "alpha" else P - st.alpha
        be = st.beta if which != "beta" else P - st.beta
        v1 = rq(rng)
        a1 = powm(G, v1) * powm(al, Q - c1) % P
        b1 = powm(st.K, v1) * powm(G, c1) * powm(be, Q - c1) % P
        a0, b0 = powm(G, u), powm(st.K, u)
        ch = st.chal(a0, b0, a1, b1)
        c0 = (ch - c1) % Q
        if c0 % 2 == 0:
            return (a0, b0, a1, b1, c0, c1, ch, (u + c0 * st.r) % Q, v1)
        # odd: negate the commitment of the real branch too, and recompute
        if which == "alpha": st.alpha = P - st.alpha
        else: st.beta = P - st.beta


def commitment_outside(rng, st, j):
    """under a key of order 2q (the sign of K changed): branch j simulated with an odd response leaves b_j outside the subgroup, the
    other branch is real and answered with an even response, so every equation holds"""
    st.key = P - st.K
    while True:
        st.m = 1 - j
        st.alpha, st.beta = o.enc(st.m, st.r, st.K)
        sm = st.sim(rng, j, None, rq(rng) | 1)
        if sm[3] >= Q:
            continue
        bj = P - sm[1]
        u = rq(rng)
        a, b = powm(G, u), powm(st.K, u)
        com = (sm[0], bj, a, b) if j == 0 else (a, b, sm[0], bj)
        ch = st.chal(*com)
        cr = (ch - sm[2]) % Q
        v = (u + cr * st.r) % Q
        if v % 2 == 0:
            return com + ((sm[2], cr, ch, sm[3], v) if j == 0 else (cr, sm[2], ch, v, sm[3]))


def verdict_cases(rng, st, pr, K, kind, out):
    out.append((kind, st.alpha, st.beta, K, st.q, tuple(pr)))


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    keys = []
    commits = {}
    for it in range(count):
        if obs.full():
            break
        if it % 6 == 0:
            s = rng.choice([2, 3, Q - 1, rq(rng), rq(rng)])
            keys = [(s, powm(G, s))] + keys[:2]
        s, K = rng.choice(keys)
        fixed = rng.choice("01")
        # ---- completeness: every maker, every bit
        mk = []
        for m in (0, 1):
            for seeded in (True, False):
                st = Stmt(rng, s, K, m)
                seed = "%x" % c.qval(rng, False) if seeded else "-"
                mk.append((st, "seeded" if seeded else "random", line("dmake", st.alpha, st.beta, st.r, fixed, K, st.q, seed, D(m))))
            st = Stmt(rng, s, K, m)
            mk.append((st, "precomputed", line("dmake_pre", K, st.q, D(m))))
        made = []
        for (st, how, ln), raw in zip(mk, d.each([x[2] for x in mk])):
            f = raw.split("\t")
            obs.ev("made " + how, ln, sample=raw[:80])
            if f[0] != "ok":
                obs.bad("%s proof of %d not made: %s" % (how, st.m, raw[:200]), sig="make", case=ln)
                continue
            v = [int(x, 16) for x in f[1:]]
            if how == "precomputed":
                st.r, st.alpha, st.beta = v[:3]
                v = v[3:]
                if (st.alpha, st.beta) != o.enc(st.m, st.r, K):
                    obs.bad("precomputed ciphertext is not an encryption of %d" % st.m, sig="pre-enc", case=ln, got=raw)
            pr, acc = tuple(v[:9]), v[9]
            eq = o.disj_equations(st.alpha, st.beta, K, st.q, pr)
            fails = [k for k, x in eq.items() if not x]
            if fails or not acc:
                obs.bad("%s proof of %d: unsatisfied %s, library verdict %d" % (how, st.m, fails, acc), sig="complete", case=ln, got=raw)
            ex = o.disj_exposed(pr, st.r, st.m, q=st.q)
            obs.ev("secret exponent of made proof", ln + how)
            if ex:
                obs.bad("%s proof of %d: the secret commitment exponent is %s of the published proof" % (how, st.m, ex), sig="exposed", case=ln, got=raw)
            for nm in (0, 1, 2, 3):
                if how != "seeded":
                    if pr[nm] in commits:
                        obs.bad("%s proof repeats a commitment of an earlier proof" % how, sig="repeat", case=ln)
                    commits[pr[nm]] = 1
            made.append((st, pr))
        # ---- refused plaintexts, and proofs made for the wrong bit never verify
        st = Stmt(rng, s, K, rng.choice([0, 1]))
        bad = rng.choice([2, 3, 2**32, 2**64 - 1, 2**63])
        wl = [line("dmake", st.alpha, st.beta, st.r, "0", K, st.q, rng.choice(["-", "5"]), D(bad)), line("dmake_pre", K, st.q, D(bad))]
        for ln, raw in zip(wl, d.each(wl)):
            obs.ev("refused plaintext", ln)
            if not raw.startswith("ex"):
                obs.bad("a proof for plaintext %d was not refused: %s" % (bad, raw[:80]), sig="refuse", case=ln)
        w = Stmt(rng, s, K, rng.choice([0, 1, 2, 5, Q - 1]))
        claim = 1 - w.m if w.m < 2 else rng.choice([0, 1])
        wl = [line("dmake", w.alpha, w.beta, w.r, "0", K, w.q, sd, D(claim)) for sd in ("-", "%x" % rq(rng))]
        for ln, raw in zip(wl, d.each(wl)):
            f = raw.split("\t")
            obs.ev("wrong statement", ln)
            if f[0] == "ok" and f[-1] != "0":
                obs.bad("a proof that %s is %d verifies" % (w.m if w.m < 9 else "-1", claim), sig="wrongbit", case=ln)
        # ---- soundness
        cases = []
        for kind in ("challenge sum", "challenge hash", "g^v0", "K^v0", "g^v1", "g^c1 K^v1"):
            st = Stmt(rng, s, K)
            cases.append(("only " + kind + " fails", st.alpha, st.beta, K, st.q, forge(rng, st, kind)))
        for kind, cs, vs in (("zero challenge", 0, None), ("zero response", None, 0), ("challenge q+k", rng.randrange(1, 180), None),
                             ("response q+k", None, rng.randrange(1, 180)), ("correct", None, None)):
            st = Stmt(rng, s, K, rng.choice([0, 1]))
            pr = list(honest(rng, st, cs, vs))
            if kind == "challenge q+k":
                pr[5 if st.m == 0 else 4] += Q
            elif kind == "response q+k":
                pr[8 if st.m == 0 else 7] += Q
            cases.append((kind, st.alpha, st.beta, K, st.q, tuple(pr)))
        for which in ("alpha", "beta"):
            st = Stmt(rng, s, K, 0)
            pr = nonresidue(rng, st, which)
            cases.append(("only %s outside the subgroup" % which, st.alpha, st.beta, K, st.q, pr))
        for j in (0, 1):
            st = Stmt(rng, s, K, 0)
            pr = commitment_outside(rng, st, j)
            cases.append(("only b%d outside the subgroup" % j, st.alpha, st.beta, st.key, st.q, pr))
        st, pr = rng.choice(made) if made else (None, None)
        if st:
            for _ in range(5):
                k = rng.randrange(9)
                x = list(pr)
                top = 4096 if k < 4 else 256
                x[k] = rng.choice([x[k] ^ (1 << rng.randrange(top)), (x[k] + 1) % (P if k < 4 else Q), (P if k < 4 else Q) - x[k], 0, 1, P if k < 4 else Q,
                                   o.MAXP if k < 4 else o.MAXQ, x[rng.randrange(4)] if k < 4 else x[rng.randrange(4, 9)]])
                cases.append(("changed " + NAMES[k], st.alpha, st.beta, K, st.q, tuple(x)))
            for a_, b_ in ((0, 2), (1, 3), (0, 1), (4, 5), (7, 8)):
                x = list(pr)
                x[a_], x[b_] = x[b_], x[a_]
                cases.append(("exchanged %s %s" % (NAMES[a_], NAMES[b_]), st.alpha, st.beta, K, st.q, tuple(x)))
            x = list(pr)
            x = [x[2], x[3], x[0], x[1], x[5], x[4], x[6], x[8], x[7]]
            cases.append(("exchanged branches", st.alpha, st.beta, K, st.q, tuple(x)))
            st2, _ = rng.choice(made)
            if st2 is not st:
                cases.append(("another ciphertext", st2.alpha, st2.beta, K, st.q, pr))
            cases.append(("another pad", st.alpha * G % P, st.beta, K, st.q, pr))
            cases.append(("another data", st.alpha, st.beta * G % P, K, st.q, pr))
            cases.append(("re-encrypted", st.alpha * G % P, st.beta * K % P, K, st.q, pr))
            cases.append(("another key", st.alpha, st.beta, powm(G, rq(rng)), st.q, pr))
            cases.append(("another election", st.alpha, st.beta, K, (st.q + 1) % Q, pr))
            cases.append(("another election", st.alpha, st.beta, K, st.q ^ (1 << rng.randrange(255)), pr))
        lines = [line("dvalid", al, be, fixed, k_, q_, *pr_) for _, al, be, k_, q_, pr_ in cases]
        for (kind, al, be, k_, q_, pr_), ln, raw in zip(cases, lines, d.each(lines)):
            f = raw.split("\t")
            eq = o.disj_equations(al, be, k_, q_, pr_)
            exp = all(eq.values())
            obs.ev(kind, ln, sample="%s: %s" % (kind, raw[:40]))
            obs.note("verdict accept" if exp else "verdict reject")
            if kind.startswith("only") and sum(not x for x in eq.values()) == 1:
                obs.note("forgeries failing exactly one condition")
            if f[0] == "died":
                obs.bad("%s: %s" % (kind, raw[:200]), sig="died", case=ln)
            elif (f == ["ok", "1"]) != exp:
                obs.bad("verifier says %s where the equations say %s: %s" % (raw[:60], exp, kind), sig=kind, case=ln,
                        failing=[k for k, x in o.disj_equations(al, be, k_, q_, pr_).items() if not x])
    d.close()


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(10, 400))
