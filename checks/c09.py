"""C09: ill-fitting ballots and elections are refused, and a refusal leaves no trace in the mediator."""
import json
import common as c
import elect as e
import oracle as o
from oracle import H, QE

RULE = ("histories of one mediator per random election that mix fitting ballots with ballots that must be refused (unknown style, vote above "
        "one that is no overvote, wrong contest or selection identifier, too many selections, self-check that fails because the public key, "
        "the precomputed values or the placeholders are wrong), through every encrypting function; each refusal must be an error, and after it "
        "the next fitting ballot must continue the chain of codes and decrypt to its votes; mediators for contexts whose manifest hash differs "
        "in one bit to all bits; distinct by (kind of misfit, function, election)")
ASSUMPTIONS = ["libgmp and hashlib are correct"]
CODES = dict(ok=0, over=1)  # every other value is an error


def near_miss(rng, s, taken):
    for _ in range(40):
        k = rng.randrange(9)
        t = [s + " ", " " + s, s[:-1], s + s, s.upper(), s.swapcase(), "", s + "\0", e.word(rng)][k]
        if t not in taken: return t
    return "no-such-" + e.word(rng, 8, 8)


class Refused(Exception):
    pass


def must_refuse(obs, kind, way, key, f, case):
    try:
        f()
    except c.LibEx as ex:
        obs.ev("refused " + kind, key + way, sample="%s: %s" % (way, ex))
        obs.note("refusals by " + way)
        return True
    obs.bad("%s: %s was not refused" % (way, kind), sig="accepted", way=way, **case)
    return False


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=3, seats=2)
        # make room for several votes on one selection in one contest
        k = rng.choice(m["contests"])
        k.update(ctor=2, votes=k["n"] + rng.choice([1, 2, 5]))
        case = dict(manifest=e.jdump(m))
        mk = e.jdump(m)
        try:
            ss = e.Session(d, rng, m)
            d.call("med_make", "med", ss.int, ss.ctx, ss.dev)
            chain = H(ss.devv[0], ss.devv[1], ss.devv[2], ss.devv[3])
            mismatched(obs, rng, d, ss, case, mk)
            hist = []
            for step in range(rng.randint(4, 7)):
                if rng.random() < 0.62:
                    kind = rng.choice(["style", "style", "vote", "vote", "key", "key", "contest", "selection", "many", "placeholders",
                                       "precomputed"])
                    hist.append(kind)
                    refuse(obs, rng, d, ss, kind, dict(case, history=str(hist)), mk)
                else:
                    chain = fitting(obs, rng, d, ss, chain, hist, case)
            chain = fitting(obs, rng, d, ss, chain, hist, case)
            verdicts(obs, rng, d, case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
        except c.LibEx as ex:
            obs.bad("a fitting use was refused: %s" % ex, sig="refused", **case)
    d.close()


def mismatched(obs, rng, d, ss, case, mk):
    """mediators of contexts for another manifest"""
    hs = [ss.mh ^ (1 << rng.randrange(256)) for _ in range(4)]
    hs += [ss.mh ^ 1, ss.mh ^ (1 << 255), ss.mh ^ (0xff << (8 * rng.randrange(32))), (ss.mh >> 8), ss.mh & (2**128 - 1),
           (ss.mh << 8) & (2**256 - 1), o.Q - ss.mh, rng.randrange(o.Q)]
    hs += [(ss.mh & (2**248 - 1)) | (rng.randrange(256) << 248)]
    for h in hs:
        h %= o.Q
        if h == ss.mh: continue
        d.call("ctx_make", "ctxother", rng.choice(["e", "h"]), str(ss.n), str(ss.k), "%01024X" % ss.K, "%064X" % ss.commit, "%064X" % h, "-", b"null".hex())
        must_refuse(obs, "another manifest", "mediator", mk + hex(h), lambda: d.call("med_make", "medother", ss.int, "ctxother", ss.dev),
                    dict(case, context_hash="%064X" % h, manifest_hash="%064X" % ss.mh))
    # and the context for the same manifest fits
    d.call("med_make", "medother", ss.int, ss.ctx, ss.dev)


def fitting(obs, rng, d, ss, chain, hist, case):
    b = e.ballot(rng, ss.m)
    exp = e.expect(ss.m, b)
    assert not any(x["refuse"] for x in exp)
    ss.load(b)
    case = dict(case, ballot=e.jdump(b), history=str(hist))
    if rng.random() < 0.6:
        d.call("med_encrypt", "med", "cb", "pb", rng.random() < 0.1)
    else:
        d.call("med_compact", "med", "cc", "pb", rng.random() < 0.1)
        d.call("cc_expand", "cb", "cc", ss.int, ss.ctx)
    r = ss.dump("cb", "cb")
    hist.append("ok")
    obs.ev("fitting after " + (hist[-2] if len(hist) > 1 else "start"), e.jdump([ss.m, b, hist]), sample=str(hist))
    if e.I(r["seed"]) != chain:
        obs.bad("after %s the next ballot's seed is %s, the last valid code %064X" % (hist, r["seed"], chain), sig="chain", **case)
    code = H(QE(e.I(r["seed"])), r["ts"], QE(e.I(r["hash"])))
    if e.I(r["code"]) != code:
        obs.bad("after %s: ballot code %s, expected %064X" % (hist, r["code"], code), sig="code", **case)
    e.judge_votes(ss, r["contests"], exp, lambda t: obs.bad("after %s: %s" % (hist, t), sig="votes", **case))
    return e.I(r["code"])


def whole(d, ss, rng, verify, ctx=None, int_=None, nonce=None):
    """the functions that encrypt the loaded ballot; mediators only for the session's own context"""
    ctx, int_ = ctx or ss.ctx, int_ or ss.int
    nonce = nonce if nonce is not None else rng.randrange(1, o.Q)
    seed = rng.randrange(1, o.Q)
    ws = {
        "encryptBallot": lambda: d.call("enc_ballot", "x", "pb", int_, ctx, seed, nonce, "5", verify),
        "encryptCompactBallot": lambda: d.call("enc_compact", "x", "pb", int_, ctx, seed, nonce, "5", verify),
        "encryptContests": lambda: d.call("enc_contests", "pb", int_, ctx, nonce, verify),
    }
    if ctx == ss.ctx and int_ == ss.int:
        ws["mediator encrypt"] = lambda: d.call("med_encrypt", "med", "x", "pb", verify)
        ws["mediator compactEncrypt"] = lambda: d.call("med_compact", "med", "x", "pb", verify)
    return ws


def refuse(obs, rng, d, ss, kind, case, mk):
    m = ss.m
    b = e.ballot(rng, m)
    ext, K = ss.ext, ss.K
    if kind == "style":
        b["style"] = near_miss(rng, b["style"], [s["id"] for s in m["styles"]])
        ss.load(b)
        ws = whole(d, ss, rng, rng.random() < 0.3)
        d.call("cp_build", "cpx", json.dumps(dict(id=b["id"], style=b["style"], sels=[], writeins=[])).encode())
        ws["expandCompactPlaintextBallot"] = lambda: d.call("cp_expand", "x", "cpx", ss.int)
        d.call("cc_build", "ccx", json.dumps(dict(id=b["id"], plain=dict(id=b["id"], style=b["style"], sels=[], writeins=[]), seed="12", code="34",
                                                 nonce="56", ts=5, state=1)).encode())
        ws["expandCompactCiphertextBallot"] = lambda: d.call("cc_expand", "x", "ccx", ss.int, ss.ctx)
        for w, f in ws.items():
            must_refuse(obs, "unknown style", w, mk + b["style"], f, dict(case, ballot=e.jdump(b)))
        return
    if kind == "vote":
        # a vote of several on one selection, within what the contest allows
        ks = [k for k in m["contests"] if k["votes"] > k["n"] or k["n"] >= 2]
        styles = {s["id"]: [x["id"] for x in e.contests_for(m, s["id"])] for s in m["styles"]}
        k = rng.choice(ks)
        st = [s for s in styles if k["id"] in styles[s]]
        if not st: return
        top = k["votes"] or k["n"]
        if top < 2: return
        s = rng.choice(k["sels"])
        vote = rng.randint(2, top)
        kb = dict(id=k["id"], sels=[dict(id=s["id"], vote=vote, writein="")])
        b = dict(id="b" + e.word(rng), style=rng.choice(st), contests=[kb])
        if not any(x["refuse"] for x in e.expect(m, b)): return
        ss.load(b)
        ws = whole(d, ss, rng, False)
        ws["encryptContest"] = lambda: d.call("enc_contest", json.dumps(kb).encode(), ss.int, k["id"].encode(), K, ext, 77, False)
        ws["encryptSelection"] = lambda: d.call("enc_sel", json.dumps(kb["sels"][0]).encode(), s["id"].encode(), s["cand"].encode(), str(s["seq"]), K,
                                                ext, 77, False, False)
        for w, f in ws.items():
            must_refuse(obs, "vote above one", w, mk + e.jdump(b), f, dict(case, ballot=e.jdump(b)))
        for big in (2, 3, 2**32, 2**32 + 1, 2**63, 2**64 - 1):
            must_refuse(obs, "vote above one", "encryptSelection", mk + str(big), lambda: d.call(
                "enc_sel", json.dumps(dict(id=s["id"], vote=big)).encode(), s["id"].encode(), s["cand"].encode(), str(s["seq"]), K, ext, 77,
                rng.random() < 0.3, False), case)
        return
    if kind == "contest":
        k = rng.choice(m["contests"])
        x = near_miss(rng, k["id"], [k["id"]])
        must_refuse(obs, "wrong contest identifier", "encryptContest", mk + x, lambda: d.call(
            "enc_contest", json.dumps(dict(id=x, sels=[dict(id=k["sels"][0]["id"], vote=1)])).encode(), ss.int, k["id"].encode(), K, ext, 7, False), dict(case, id=x))
        return
    if kind == "selection":
        s = rng.choice(rng.choice(m["contests"])["sels"])
        x = near_miss(rng, s["id"], [s["id"]])
        must_refuse(obs, "wrong selection identifier", "encryptSelection", mk + x, lambda: d.call(
            "enc_sel", json.dumps(dict(id=x, vote=rng.randrange(2))).encode(), s["id"].encode(), s["cand"].encode(), str(s["seq"]), K, ext, 7,
            rng.random() < 0.3, False), dict(case, id=x))
        return
    if kind == "many":
        k = rng.choice(m["contests"])
        sels = [dict(id=s["id"], vote=0) for s in k["sels"]]
        for _ in range(rng.choice([1, 1, 2, 20])):
            sels.insert(rng.randrange(len(sels) + 1), dict(id=rng.choice([k["sels"][0]["id"], "extra"]), vote=rng.choice([0, 0, 1])))
        must_refuse(obs, "too many selections", "encryptContest", mk + e.jdump(sels), lambda: d.call(
            "enc_contest", json.dumps(dict(id=k["id"], sels=sels)).encode(), ss.int, k["id"].encode(), K, ext, 7, False), dict(case, sels=e.jdump(sels)))
        return
    if kind == "key":
        # a public key outside the subgroup, verification requested
        neg = rng.random() < 0.4
        bad = o.P - K if neg else rng.choice([rng.randrange(2, o.P), 0, K * 2 % o.P, 3, o.P - 2])
        if not neg and o.residue(bad): return
        d.call("ctx_make", "ctxk", rng.choice(["e", "f", "h"]) if bad else "e", str(ss.n), str(ss.k), "%01024X" % bad, "%064X" % ss.commit, "%064X" % ss.mh,
               "-", b"null".hex())
        b["contests"] = [x for x in b["contests"] if x["id"] != "no-such-contest"]
        ss.load(b)
        nonce = rng.randrange(1, o.Q)
        odd = True
        if neg:
            odd = all(any(x % 2 for x in e.nonces(m, ss.mh, b["id"], nonce, k)[2]) for k in e.contests_for(m, b["style"]))
        if odd:
            ws = whole(d, ss, rng, True, ctx="ctxk", nonce=nonce)
            del ws["encryptContests"]
            for w, f in ws.items():
                must_refuse(obs, "failing self-check (key)", w, mk + e.jdump(b), f, dict(case, key="%X" % bad, ballot=e.jdump(b)))
        k = rng.choice(m["contests"])
        s = k["sels"][0]
        for _ in range(4):
            sd = rng.randrange(1, o.Q)
            if not neg or o.Nonces(e.h_sel(s), QE(sd)).get(s["seq"]) % 2:
                must_refuse(obs, "failing self-check (key)", "encryptSelection", mk + hex(sd), lambda: d.call(
                    "enc_sel", json.dumps(dict(id=s["id"], vote=rng.randrange(2))).encode(), s["id"].encode(), s["cand"].encode(), str(s["seq"]), bad,
                    ext, sd, rng.random() < 0.3, True), dict(case, key="%X" % bad))
                break
        for _ in range(4):
            sd = rng.randrange(1, o.Q)
            nn = o.Nonces(e.h_contest(k), QE(sd)).get(k["seq"])
            if not neg or o.Nonces(e.h_sel(s), QE(nn)).get(s["seq"]) % 2:
                must_refuse(obs, "failing self-check (key)", "encryptContest", mk + hex(sd), lambda: d.call(
                    "enc_contest", json.dumps(dict(id=k["id"], sels=[])).encode(), ss.int, k["id"].encode(), bad, ext, sd, True), dict(case, key="%X" % bad))
                break
        return
    if kind == "placeholders":
        # a description whose placeholders cannot fill an undervote: the contest's own proof fails
        j = json.loads(bytes.fromhex(d.call("ser", "int", ss.int, "j")[0]))
        for k in j["contests"]: k["ballot_placeholders"] = k["ballot_placeholders"][1:]
        d.call("load", "int", "intp", "j", json.dumps(j).encode())
        b["contests"] = []
        ss.load(b)
        ws = whole(d, ss, rng, True, int_="intp")
        k = e.contests_for(m, b["style"])[0]
        ws["encryptContest"] = lambda: d.call("enc_contest", json.dumps(dict(id=k["id"], sels=[])).encode(), "intp", k["id"].encode(), K, ext, 7, True)
        w = rng.choice(sorted(ws))
        must_refuse(obs, "failing self-check (total)", w, mk + e.jdump(b), ws[w], dict(case, ballot=e.jdump(b)))
        return
    if kind == "precomputed":
        # values precomputed for another key: the selection proofs do not verify under this one
        ss.load(b)
        w = rng.choice(["encryptBallot", "encryptCompactBallot", "encryptContests", "mediator encrypt", "mediator compactEncrypt"])
        d.call("pre_init", "2")
        d.call("pre_fill", False, o.powm(o.G, rng.randrange(2, o.Q)))
        must_refuse(obs, "failing self-check (precomputed)", w, mk + e.jdump(b), whole(d, ss, rng, True)[w], dict(case, ballot=e.jdump(b)))
        d.call("pre_empty")
        d.call("pre_init", "0")
        d.call("pre_empty")


def verdicts(obs, rng, d, case):
    """the validity verdict on plaintext contests and selections"""
    for _ in range(150):
        ns, ne = rng.randint(0, 5), rng.randint(0, 3)
        va = rng.choice([0, 0, ne, ne + 1, ne + 3])
        sels = [dict(id="s%d" % j, vote=rng.choice([0] * 8 + [1] * 8 + [2, 2, 3, 2**32, 2**32 + 1, 2**63, 2**64 - 1])) for j in range(rng.randint(0, 5))]
        idw = rng.choice(["c"] * 9 + ["C", "", "c "])
        sup = rng.random() < 0.5
        el, tot = sum(s["vote"] >= 1 for s in sels), sum(s["vote"] for s in sels)
        if idw != "c": want = "bad_id"
        elif len(sels) > ns: want = "too_many"
        elif el > ne or tot > (va or ne): want = "over" if sup else "over_err"
        else: want = "ok"
        r = int(d.call("pc_valid", json.dumps(dict(id="c", sels=sels)).encode(), idw.encode(), str(ns), str(ne), str(va), sup)[0])
        obs.ev("verdict " + want, e.jdump([sels, idw, ns, ne, va, sup]))
        if (r != CODES[want]) if want in CODES else (r in (0, 1)):
            obs.bad("contest with %s judged %d, expected %s (%d selections, %d seats, %d votes allowed)" % (sels, r, want, ns, ne, va), sig="verdict", **case)
        v = rng.choice([0, 1, 2, 2**32, 2**64 - 1])
        sid = rng.choice(["x", "X", ""])
        r = d.call("ps_valid", json.dumps(dict(id="x", vote=v)).encode(), sid.encode())[0] == "1"
        if r != (v <= 1 and sid == "x"):
            obs.bad("selection with vote %d judged %s" % (v, r), sig="verdict", **case)


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(20, 300))
