"""C04: ElGamal encryption, decryption and homomorphic addition against big-integer arithmetic."""
import common as c
import oracle as o
from common import D, line

RULE = ("keys, nonces and messages with boundary values; encryption with and without accelerated keys and from precomputed powers; "
        "decryption of matching, mismatching, out-of-range and non-member ciphertexts; additions of 1..40 ciphertexts in several orders; "
        "distinct by input; oracle: big-integer ElGamal")
ASSUMPTIONS = ["libgmp/Python integers compute modular powers correctly"]
MAXU = 2**64 - 1


def p(v): return "%01024x" % v
def q(v): return "%064x" % v


def secret(rng):
    return rng.choice([2, 3, o.Q - 1, o.Q - 2, 2**64, 2**255, max(2, c.qval(rng, False)), rng.randrange(2, o.Q)])


def nonce(rng):
    return rng.choice([1, 2, o.Q - 1, 2**64, 2**64 - 1, c.qval(rng, False) or 1, rng.randrange(1, o.Q), rng.randrange(1, o.Q)])


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    keys = []
    for _ in range(4):
        s = secret(rng)
        keys.append((s, o.powm(o.G, s)))
    for it in range(count):
        if obs.full():
            break
        cases = []          # (kind, line, predicate(fields or None) -> message or None)

        def want(*fields):
            fields = list(fields)
            return lambda f: None if f == fields else "expected %s" % (" ".join(fields))[:200]

        refuse = lambda f: None if f is None else "accepted"
        if it % 5 == 0:
            s = secret(rng)
            keys.append((s, o.powm(o.G, s)))
            keys.pop(0)
        s, K = rng.choice(keys)
        cases.append(("key pair", line("keypair", s), want(q(s), p(K))))
        cases.append(("refused secret", line("keypair", rng.choice([0, 1])), refuse))
        cts = []
        for m in [0, 1, rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([2, 3, 5, 2**32, 2**63, MAXU, rng.getrandbits(64)])]:
            r = nonce(rng)
            a, kr = o.powm(o.G, r), o.powm(K, r)
            b = kr * o.powm(o.G, m) % o.P
            cts.append((m, r, a, b))
            cases.append(("encrypt", line("enc", D(m), r, rng.choice("01"), K), want(p(a), p(b))))
            cases.append(("encrypt from precomputed", line("enc_pre", D(m), a, kr), want(p(a), p(b))))
            exp = str(m if m < 2 else MAXU)
            cases.append(("decrypt", line("dec", a, b, s), want(exp)))
            # another key never opens it as a bit
            s2 = rng.choice([s + 1 if s + 1 < o.Q else 2, s - 1 if s > 2 else 3, secret(rng)])
            if s2 != s:
                t = b * o.powm(o.powm(a, s2), o.P - 2) % o.P
                exp = {1: "0", o.G: "1"}.get(t, str(MAXU))
                cases.append(("decrypt with another key", line("dec", a, b, s2), want(exp)))
            # ciphertexts that are not encryptions of a bit
            bad = rng.choice([(o.P - a, b), (a, o.P - b), (a, b * 2 % o.P), (a * o.G % o.P, b), (b, a), (1, b), (a, 1), (a, o.P - 1), (0, b), (a, 0),
                              (o.P, b), (o.P + 1, b), (o.MAXP, b), (a, o.P), (o.MAXP, o.MAXP), (c.pval(rng), b), (a, c.pval(rng))])
            t = bad[1] * o.powm(o.powm(bad[0] % o.P, s), o.P - 2) % o.P
            exp = {1: "0", o.G: "1"}.get(t, str(MAXU))
            if bad[0] % o.P == 0:
                exp = str(MAXU)
            inr = bad[0] < o.P and bad[1] < o.P
            ok = want(exp)
            cases.append(("decrypt of a non-encryption", line("dec", bad[0], bad[1], s),
                          (lambda f, ok=ok, inr=inr, exp=exp: ok(f) if inr else
                           (None if f is None or f[0] in (exp, str(MAXU)) else "opened as " + f[0]))))
        # the identity pad: data alone carries the message
        for t, e in ((1, "0"), (o.G, "1"), (2, str(MAXU)), (o.powm(o.G, 2), str(MAXU)), (o.P - o.G, str(MAXU)), (o.powm(o.G, o.Q - 1), str(MAXU))):
            cases.append(("decrypt with pad one", line("dec", 1, t, s), want(e)))
        cases.append(("refused nonce", line("enc", D(rng.choice([0, 1])), 0, "0", K), refuse))
        # homomorphic addition
        k = rng.choice([1, 2, 2, 3, 5, 12, 40])
        lst = [rng.choice(cts) for _ in range(k)]
        orders = [list(lst), lst[::-1]]
        rng.shuffle(lst)
        orders.append(lst)
        A = B = 1
        for x in lst:
            A, B = A * x[2] % o.P, B * x[3] % o.P
        rs, ms = sum(x[1] for x in lst) % o.Q, sum(x[0] for x in lst)
        assert (A, B) == o.enc(ms % o.Q, rs, K)
        for od in orders:
            args = [v for x in od for v in (x[2], x[3])]
            cases.append(("add ciphertexts", line("cadd", *args), want(p(A), p(B), *[p(v) for v in args])))
        if ms < 2:
            cases.append(("decrypt of a sum", line("dec", A, B, s), want(str(ms))))
        cases.append(("refused empty sum", "cadd", refuse))
        a, b = cts[0][2:]
        cases.append(("ciphertext hash", line("chash", a, b), want(q(o.H(o.PE(a), o.PE(b))), q(o.H(o.PE(a), o.PE(b))))))
        a2, b2 = rng.choice([(a, b), (b, a), (a, b ^ (1 << rng.randrange(4095))), (a ^ (1 << rng.randrange(4095)), b)])
        e = (a, b) == (a2, b2)
        cases.append(("ciphertext equality", line("ceq", a, b, a2, b2), want(str(int(e)), str(int(not e)))))
        for (kind, ln, pred), raw in zip(cases, d.each([x[1] for x in cases])):
            obs.ev(kind, ln, sample="%s... -> %s" % (ln[:120], raw[:80]))
            f = raw.split("\t")
            if f[0] == "ok":
                msg = pred(f[1:])
            elif f[0] == "ex":
                msg = pred(None)
                if msg:
                    msg += "; refused with " + bytes.fromhex(f[2]).decode(errors="replace")[:100]
            else:
                msg = raw
            if msg:
                obs.bad("%s: %s: %s -> %s" % (kind, msg, ln[:160], raw[:100]), sig=kind, case=ln, got=raw)
    d.close()


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(16, 500))
