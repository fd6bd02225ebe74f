"""C07: constant Chaum-Pedersen (contest limit) proofs: completeness and soundness."""
import common as c
import oracle as o
from common import D, line
from oracle import G, P, Q, PE, QE, powm
from checks.c06 import inv, rq

RULE = ("honest proofs for constants from 0 to 2^64-1 over boundary keys, nonces, seeds and hashes; proofs forged so that exactly one "
        "condition fails (each in turn), single component changes, exchanges, wrong constants, and context changes; distinct by input; "
        "oracle: the published verification equations evaluated with big integers")
ASSUMPTIONS = ["libgmp and hashlib are correct"]


class St:
    def __init__(self, rng, s, K, m, L):
        self.s, self.K, self.m, self.L = s, K, m, L
        self.r = rng.choice([1, Q - 1, rq(rng), rq(rng), rq(rng)])
        self.alpha, self.beta = o.enc(m % Q, self.r, K)
        self.q = rng.choice([c.qval(rng, False), rq(rng)])
        self.key = K

    def chal(self, a, b): return o.H(QE(self.q), PE(self.alpha), PE(self.beta), PE(a), PE(b))


def const(rng):
    return rng.choice([0, 1, 1, 2, 3, 7, 100, 2**31, 2**32, 2**63, 2**64 - 1, rng.randrange(20), rng.getrandbits(64)])


def forge(rng, st, kind):
    u = rq(rng)
    a, b = powm(G, u), powm(st.K, u)
    if kind == "g^v":
        a = c.subgroup(rng)
        ch = st.chal(a, b)
        return a, b, ch, (u + ch * (st.r + (st.m - st.L) * inv(st.s))) % Q, st.L
    if kind == "g^cL K^v":
        ch = st.chal(a, b)
        return a, b, ch, (u + ch * st.r) % Q, st.L
    if kind == "challenge hash":
        ch, v = rq(rng), rq(rng)
        a = powm(G, v) * powm(st.alpha, Q - ch) % P
        b = powm(st.K, v) * powm(G, ch * st.L % Q) * powm(st.beta, Q - ch) % P
        return a, b, ch, v, st.L
    if kind == "v bounds":            # a nonce of zero makes the response the commitment exponent
        st.r = 0
        st.alpha, st.beta = o.enc(st.L % Q, 0, st.K)
        u = rng.randrange(1, 180)
        a, b = powm(G, u), powm(st.K, u)
        return a, b, st.chal(a, b), u + Q, st.L
    if kind == "b residue":           # under a key of order 2q an odd response leaves the commitment outside the subgroup
        st.alpha, st.beta = o.enc(st.L % Q, st.r, st.K)
        st.key = P - st.K
        while True:
            u = rq(rng)
            a, b = powm(G, u), P - powm(st.K, u)
            ch = st.chal(a, b)
            v = (u + ch * st.r) % Q
            if v % 2:
                return a, b, ch, v, st.L
    # members outside the subgroup, all equations kept: needs an even challenge
    while True:
        st.alpha, st.beta = o.enc(st.L % Q, st.r, st.K)
        if kind == "alpha residue": st.alpha = P - st.alpha
        else: st.beta = P - st.beta
        u = rq(rng)
        a, b = powm(G, u), powm(st.K, u)
        ch = st.chal(a, b)
        if ch % 2 == 0:
            return a, b, ch, (u + ch * st.r) % Q, st.L


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    keys = []
    for it in range(count):
        if obs.full():
            break
        if it % 6 == 0:
            s = rng.choice([2, 3, Q - 1, rq(rng), rq(rng)])
            keys = [(s, powm(G, s))] + keys[:2]
        s, K = rng.choice(keys)
        fixed = rng.choice("01")
        mk = []
        for _ in range(4):
            L = const(rng)
            st = St(rng, s, K, L, L)
            mk.append((st, line("cmake", st.alpha, st.beta, st.r, fixed, K, c.qval(rng, False), st.q, D(L))))
        L = const(rng)
        w = St(rng, s, K, rng.choice([L + 1, L - 1, 0 if L else 1, L + 2]), L)
        mk.append((w, line("cmake", w.alpha, w.beta, w.r, fixed, K, rq(rng), w.q, D(L))))
        made = []
        for (st, ln), raw in zip(mk, d.each([x[1] for x in mk])):
            f = raw.split("\t")
            good = st.m == st.L
            obs.ev("made" if good else "made for a wrong constant", ln, sample=raw[:80])
            if f[0] != "ok":
                if good:
                    obs.bad("proof of %d not made: %s" % (st.L, raw[:200]), sig="make", case=ln)
                continue
            pr = tuple(int(x, 16) for x in f[1:5]) + (int(f[5]),)
            eq = o.const_equations(st.alpha, st.beta, K, st.q, pr)
            fails = [k for k, x in eq.items() if not x]
            acc = f[6] == "1"
            if good and (fails or not acc or pr[4] != st.L):
                obs.bad("proof of constant %d (states %d): unsatisfied %s, library verdict %d" % (st.L, pr[4], fails, acc), sig="complete", case=ln, got=raw)
            ex = o.const_exposed(pr, st.r, q=st.q) if good else None
            if ex:
                obs.bad("proof of %d: the secret commitment exponent is %s of the published proof" % (st.L, ex), sig="exposed", case=ln, got=raw)
            if not good and acc:
                obs.bad("a proof that an encryption of %d holds %d verifies" % (st.m, st.L), sig="wrong", case=ln)
            if good:
                made.append((st, pr))
        cases = []
        for kind in ("g^v", "g^cL K^v", "challenge hash", "alpha residue", "beta residue", "b residue", "v bounds"):
            L = const(rng)
            st = St(rng, s, K, L + rng.choice([-1, 1, 5]), L)
            if kind.endswith("residue"): st.m = L
            cases.append(("only %s fails" % kind, st.alpha, st.beta, K, st.q, None, st, kind))
        cases = [(k, st, forge(rng, st, kind)) for k, _, _, _, _, _, st, kind in cases]
        cases = [(k, st.alpha, st.beta, st.key, st.q, pr) for k, st, pr in cases]
        if made:
            st, pr = rng.choice(made)
            al, be, q_ = st.alpha, st.beta, st.q
            cases.append(("correct", al, be, K, q_, pr))
            for L2 in {pr[4] + 1, pr[4] - 1, 0, 1, 2, (pr[4] + 2**32), pr[4] ^ (1 << rng.randrange(64))}:
                if 0 <= L2 < 2**64:
                    cases.append(("another constant", al, be, K, q_, pr[:4] + (L2,)))
            for k in range(4):
                top, mod, mx = (4096, P, o.MAXP) if k < 2 else (256, Q, o.MAXQ)
                x = list(pr)
                x[k] = rng.choice([x[k] ^ (1 << rng.randrange(top)), (x[k] + 1) % mod, mod - x[k], 0, 1, mod, mx, x[k ^ 1]])
                cases.append(("changed " + "abcv"[k], al, be, K, q_, tuple(x)))
            cases.append(("exchanged a b", al, be, K, q_, (pr[1], pr[0]) + pr[2:]))
            cases.append(("exchanged pad and data", be, al, K, q_, pr))
            cases.append(("another pad", al * G % P, be, K, q_, pr))
            cases.append(("another data", al, be * G % P, K, q_, pr))
            cases.append(("data times g with the next constant", al, be * G % P, K, q_, pr[:4] + ((pr[4] + 1) % 2**64,)))
            cases.append(("re-encrypted", al * G % P, be * K % P, K, q_, pr))
            cases.append(("another key", al, be, powm(G, rq(rng)), q_, pr))
            cases.append(("another election", al, be, K, (q_ + 1) % Q, pr))
            cases.append(("another election", al, be, K, q_ ^ (1 << rng.randrange(255)), pr))
        lines = [line("cvalid", al, be, fixed, k_, q_, *pr_[:4], D(pr_[4])) for _, al, be, k_, q_, pr_ in cases]
        for (kind, al, be, k_, q_, pr_), ln, raw in zip(cases, lines, d.each(lines)):
            f = raw.split("\t")
            eq = o.const_equations(al, be, k_, q_, pr_)
            exp = all(eq.values())
            obs.ev(kind, ln, sample="%s: %s" % (kind, raw[:40]))
            obs.note("verdict accept" if exp else "verdict reject")
            if kind.startswith("only") and sum(not x for x in eq.values()) == 1:
                obs.note("forgeries failing exactly one condition")
            if f[0] == "died":
                obs.bad("%s: %s" % (kind, raw[:200]), sig="died", case=ln)
            elif (f == ["ok", "1"]) != exp:
                obs.bad("verifier says %s where the equations say %s: %s (constant %d)" % (raw[:60], exp, kind, pr_[4]), sig=kind, case=ln,
                        failing=[k for k, x in eq.items() if not x])
    d.close()


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(9, 400))
