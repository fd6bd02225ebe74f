"""C21: copies, clones, assignments and moves of every copyable type, as histories against a model of values, under AddressSanitizer."""
import json
import common as c
import elect as e
import oracle as o
from oracle import P, Q

RULE = ("random histories of copy, copy through a growing vector, clone, assignment (also to itself), move construction, move assignment, destruction "
        "and change of one object's own storage, over five objects of one type, for every copyable type, in the AddressSanitizer and "
        "UndefinedBehaviorSanitizer build; after every operation the complete content of every live object is compared with a model in which an "
        "operation changes only its target; leaks are counted at the end; distinct by (type, operation sequence)")
ASSUMPTIONS = ["the content an object shows through its accessors, hashes and serialised form is its content",
               "moves are made only where the type defines them"]
ALL = "p q pair hashed key disj const ann lang text contact gp style party cand seld contd contp man int ps pc pb cs ck cb triple quad ttq".split()
CLONE = set("p q pair hashed disj ps triple quad ttq".split())
MOVE = set("ann lang text contact gp style party cand seld contd contp man int ps pc triple quad ttq".split())
MOVEASSIGN = set("ann lang triple quad ttq".split())
NOCOPY = {"man", "int"}
CHANGE = set("p q pair hashed key disj const cs ck cb".split())
HEAVY = {"cb", "man", "int"}


def ph(v): return "%01024X" % v
def qh(v): return "%064X" % v
def rp(rng): return ph(c.pval(rng))
def rq(rng): return qh(c.qval(rng))
def hexes(rng, n): return bytes(rng.getrandbits(8) for _ in range(n)).hex()


def disj(rng): return [rp(rng) for _ in range(4)] + [rq(rng) for _ in range(5)]
def const(rng): return [rp(rng), rp(rng), rq(rng), rq(rng), rng.choice([0, 1, 2, 2**32, 2**63])]
def hashed(rng): return dict(pad=rp(rng), data=hexes(rng, rng.choice([0, 1, 32, 512, 513])), mac=hexes(rng, rng.choice([0, 32, 33])))


def csel(rng):
    return dict(id=e.txt(rng), seq=rng.choice([0, 1, 2**40, rng.randrange(99)]), dh=rq(rng), pad=rp(rng), data=rp(rng), ph=rng.random() < 0.5,
                nonce=rng.choice([None, rq(rng)]), hash=rq(rng), proof=rng.choice([None, disj(rng)]))


def ccont(rng, lim=3):
    # the parts a contest may lack: nonce, proof, extra data
    return dict(id=e.txt(rng), seq=rng.choice([0, 1, rng.randrange(99)]), dh=rq(rng), nonce=rng.choice([None, rq(rng)]), acc=[rp(rng), rp(rng)],
                hash=rq(rng), proof=rng.choice([None, const(rng)]), hashed=rng.choice([None, hashed(rng)]),
                sels=[csel(rng) for _ in range(rng.choice([0, 1, 2, lim]))])


def triple(rng): return [rq(rng), rp(rng), rp(rng)]
def quad(rng): return [rq(rng), rq(rng), rp(rng), rp(rng)]


def spec(rng, k):
    if k == "p": return [rp(rng), rng.random() < 0.5]
    if k == "q": return [rq(rng)]
    if k == "pair": return [rp(rng), rp(rng)]
    if k == "hashed": return hashed(rng)
    if k == "key": return [qh(rng.randrange(2, Q)), rng.random() < 0.5]
    if k == "disj": return disj(rng)
    if k == "const": return const(rng)
    if k in ("ann", "lang"): return [e.txt(rng), e.txt(rng)]
    if k == "text": return e.text(rng)
    if k == "contact": return e.contact(rng)
    m = e.manifest(rng)
    if k == "gp": return rng.choice(m["gpus"])
    if k == "style": return rng.choice(m["styles"])
    if k == "party": return rng.choice(m["parties"]) if m["parties"] else dict(id=e.txt(rng, False), name=e.text(rng), abbr="", color=e.txt(rng), logo="")
    if k == "cand": return rng.choice(m["candidates"])
    if k == "seld": return rng.choice(rng.choice(m["contests"])["sels"])
    if k == "contd": return rng.choice(m["contests"])
    if k == "contp":
        x = rng.choice(m["contests"])
        return dict(x, ph=rng.choice([[], e.placeholders(x), e.placeholders(x)]))
    if k in ("man", "int"): return m
    if k in ("ps", "pc", "pb"):
        b = e.ballot(rng, m)
        if k == "pb": return b
        x = rng.choice(b["contests"]) if b["contests"] else dict(id="x", sels=[])
        if k == "pc": return x
        return rng.choice(x["sels"]) if x["sels"] else dict(id="s", vote=1, writein=e.txt(rng))
    if k == "cs": return csel(rng)
    if k == "ck": return ccont(rng)
    if k == "cb":
        return dict(id=e.txt(rng), style=e.txt(rng), mh=rq(rng), seed=rq(rng), contests=[ccont(rng, 2) for _ in range(rng.choice([0, 1, 2]))], code=rng.choice([rq(rng), rq(rng)]),
                    ts=rng.getrandbits(40), nonce=rng.choice([None, rq(rng)]), hash=rq(rng))
    if k == "triple": return triple(rng)
    if k == "quad": return quad(rng)
    return [triple(rng), triple(rng), quad(rng)]


def history(rng, k, length):
    """operations valid for the type; every operation reads live slots"""
    live, ops = {0, 1}, []
    for _ in range(length):
        can = ["d"] if len(live) > 1 else []
        if k not in NOCOPY:
            can += ["c", "c", "a", "a"] + (["v"] if k in MOVE else [])
        if k in CLONE: can += ["l", "l"]
        if k in MOVE: can += ["m", "m"]
        if k in MOVEASSIGN: can += ["M"]
        if k in CHANGE: can += ["x", "x"]
        op = rng.choice(can)
        i = rng.choice(sorted(live))
        if op in "cvl":
            j = rng.randrange(5)
            ops.append("%s:%d:%d" % (op, i, j)); live.add(j)
        elif op == "a":
            j = rng.choice(sorted(live))
            ops.append("a:%d:%d" % (i, j))
        elif op == "m":
            j = rng.randrange(5)
            ops.append("m:%d:%d" % (i, j)); live.discard(i); live.add(j)
        elif op == "M":
            o_ = sorted(live - {i})
            if not o_: continue
            ops.append("M:%d:%d" % (i, rng.choice(o_))); live.discard(i)
        elif op == "d":
            ops.append("d:%d" % i); live.discard(i)
        else:
            ops.append("x:%d" % i)
        if not live: break
    return ops


def judge(k, A, B, ops, out, bad):
    base = out[:2]
    m = [base[0], base[1], "-", "-", "-"]
    for n, (op, got) in enumerate(zip(ops, out[2:])):
        got = got.split(",")
        f = op.split(":")
        i = int(f[1]); j = int(f[2]) if len(f) > 2 else -1
        exp = list(m)
        if f[0] in "cvla": exp[j] = m[i]
        elif f[0] in "mM": exp[i] = "-"; exp[j] = m[i]
        elif f[0] == "d": exp[i] = "-"
        else:
            if got[i] == m[i]: bad("changing an object left it as it was", n)   # the harness' own control
            exp[i] = got[i]
        for s in range(5):
            if got[s] != exp[s]:
                role = "the target" if s == j or (s == i and f[0] == "d") else "the source" if s == i else "another object"
                bad("%s after %s: %s has other content than it must have" % (k, {"c": "a copy", "v": "copies through a vector", "l": "a clone", "a": "an assignment",
                    "m": "a move", "M": "a move assignment", "d": "a destruction", "x": "a change of one object"}[f[0]], role), n)
                return
        m = exp
    return


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe, env=dict(ASAN_OPTIONS=c.LEAKS))
    for it in range(count):
        for k in ALL:
            if obs.full(): return
            for _ in range(1 if k in HEAVY else 2):
                A, B = spec(rng, k), spec(rng, k)
                ops = history(rng, k, rng.randint(3, 8 if k in HEAVY else 14))
                case = dict(kind=k, A=json.dumps(A)[:6000], B=json.dumps(B)[:6000], ops=" ".join(ops), exe=exe)
                try:
                    out = d.call("copies", k, json.dumps(A).encode(), json.dumps(B).encode(), False, *ops)
                except c.LibEx as ex:
                    obs.bad("copying %s refused: %s" % (k, ex), sig=k + "/refused", **case)
                    continue
                except c.Died as ex:
                    obs.bad("copying %s: %s" % (k, ex), sig=k + "/died", **case)
                    d.restart()
                    continue
                for op in ops: obs.ev("%s %s" % (k, {"c": "copy", "v": "vector", "l": "clone", "a": "assign", "m": "move", "M": "move assign", "d": "destroy", "x": "change"}[op[0]]))
                obs.ev("history of " + k, " ".join(ops) + case["A"][:200], sample=" ".join(ops))
                judge(k, A, B, ops, out, lambda t, n: obs.bad(t, sig=k + "/" + ops[n][0], at="%d: %s" % (n, ops[n]), **case))
    try:
        d.call("dropall")
        if d.call("leaks")[0] != "0":
            obs.bad("objects leaked memory", sig="leak", report=d.stderr()[-6000:])
        obs.ev("leak check", i)
    except c.Died as ex:
        obs.bad("leak check: %s" % ex, sig="leak/died")
    d.close()


def run(ck):
    exe = c.egobj("asan")
    ck.shards(work, exe, ck.scale(48, 500))
