"""C17: compact ballots: expansion against full encryption, and refusal of compact ballots that do not fit or were altered."""
import copy, json
import common as c
import elect as e
import oracle as o
from oracle import H, QE, Q

RULE = ("random ballots (complete and partial, over- and undervotes, write-ins in any alphabet) made compact by every function, directly and "
        "through JSON, BSON and MessagePack, expanded and compared field by field with the full encryption of the same inputs and with the "
        "voter's choices; compact ballots with missing, surplus or altered parts; distinct by (election, ballot, way)")
ASSUMPTIONS = ["libgmp and hashlib are correct"]
I = e.I
FMT = "jbm"


def same(obs, a, b, what, case):
    """encrypted ballots equal up to the random selection proofs"""
    def strip(x):
        x = copy.deepcopy(x)
        for k in x["contests"]:
            for s in k["sels"]: s["proof"] = None
        return x
    a, b = strip(a), strip(b)
    if a != b:
        df = [f for f in a if a[f] != b.get(f)]
        for f in df:
            if f == "contests" and len(a[f]) == len(b[f]):
                df.append([(k["id"], g) for k, l in zip(a[f], b[f]) for g in k if k[g] != l.get(g)])
        obs.bad("%s: the expanded ballot differs from the full encryption in %s" % (what, str(df)[:600]), sig="differs", **case)


def normal(m, b):
    """the voter's ballot in manifest order, every selection present"""
    out = []
    for k in e.contests_for(m, b["style"]):
        g = {}
        for s in next((x["sels"] for x in b["contests"] if x["id"] == k["id"]), []): g.setdefault(s["id"], s)
        out.append(dict(id=k["id"], sels=[dict(id=s["id"], vote=g[s["id"]]["vote"] if s["id"] in g else 0, ph=False,
                                               writein=g[s["id"]].get("writein", "") if s["id"] in g else "")
                                          for s in sorted(k["sels"], key=lambda s: s["seq"])]))
    return dict(id=b["id"], style=b["style"], contests=out)


def through(d, kind, name, f):
    """write and read back"""
    doc = bytes.fromhex(d.call("ser", kind, name, f)[0])
    d.call("load", kind, name, f, doc)


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=rng.choice([1, 2, 3]), seats=2, wide=e.wide(i, it == 0))
        case = dict(manifest=e.jdump(m))
        try:
            ss = e.Session(d, rng, m)
            for _ in range(2):
                one(obs, rng, d, ss, m, case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **case)
    d.close()


def one(obs, rng, d, ss, m, case):
    b = e.ballot(rng, m)
    nb = normal(m, b)
    case = dict(case, ballot=e.jdump(b))
    key = e.jdump([m, b])
    flat = [s["vote"] for k in nb["contests"] for s in k["sels"]]
    wis = [s["writein"] for k in nb["contests"] for s in k["sels"]]
    plaintext(obs, rng, d, ss, b, nb, case, key, flat, wis)
    for _ in range(12):
        b2 = e.ballot(rng, m)
        if rng.random() < 0.2:
            for k in b2["contests"]:
                for s in k["sels"]: s["vote"] = rng.choice([0, 1, 2, 2**32, 2**63 - 1])
        n2 = normal(m, b2)
        plaintext(obs, rng, d, ss, b2, n2, dict(case, ballot=e.jdump(b2)), e.jdump([m, b2]), [s["vote"] for k in n2["contests"] for s in k["sels"]],
                  [s["writein"] for k in n2["contests"] for s in k["sels"]])
    ss.load(nb, "nb")
    ciphertext(obs, rng, d, ss, m, b, nb, case, key, flat, wis)


def plaintext(obs, rng, d, ss, b, nb, case, key, flat, wis):
    """complete ballot, compacted and expanded"""
    ss.load(nb, "nb")
    for f in rng.sample(["", "j", "b", "m"], 2):
        d.call("cp_make", "cp", "nb", rng.random() < 0.5)
        if f: through(d, "cp", "cp", f)
        g = json.loads(bytes.fromhex(d.call("dump", "cp", "cp")[0]))
        obs.ev("compact plaintext" + (" via " + f if f else ""), key, sample="%s %s" % (flat, wis))
        if g != dict(id=b["id"], style=b["style"], sels=flat, writeins=wis):
            obs.bad("compact plaintext is %s, expected votes %s and write-ins %s" % (g, flat, wis), sig="compact", **case)
        d.call("cp_expand", "px", "cp", ss.int)
        g = json.loads(bytes.fromhex(d.call("dump", "pb", "px")[0]))
        if g != nb: obs.bad("the compact plaintext expands to %s, expected %s" % (e.jdump(g), e.jdump(nb)), sig="expand", **case)


def ciphertext(obs, rng, d, ss, m, b, nb, case, key, flat, wis):
    ss.load(b)
    nonce, seed, ts = rng.randrange(1, Q), rng.randrange(Q), rng.randrange(1, 2**40)
    full = ss.encrypt(out="full", nonce=nonce, seed=seed, ts=ts, verify=False)
    way = rng.choice(["encryptCompactBallot", "compress", "mediator"])
    if way == "encryptCompactBallot":
        d.call("enc_compact", "cc", "pb", ss.int, ss.ctx, seed, nonce, str(ts), False)
    elif way == "compress":
        d.call("cc_make", "cc", "nb", "full", rng.random() < 0.5)
    else:
        d.call("med_make", "med", ss.int, ss.ctx, ss.dev)
        d.call("med_compact", "med", "cc", "pb", False)
        q = json.loads(bytes.fromhex(d.call("dump", "cc", "cc")[0]))
        full = ss.encrypt(out="full", nonce=I(q["nonce"]), seed=I(q["seed"]), ts=q["ts"], verify=False)
    if json.loads(bytes.fromhex(d.call("dump", "cc", "cc")[0]))["state"] != 999:
        obs.bad("%s: a new compact ballot counts as already decided" % way, sig="state", **case)
    mark = rng.choice([999, 1, 2])
    if mark != 999: d.call("cc_state", "cc", str(mark))
    f = rng.choice(["", "j", "b", "m"])
    if f: through(d, "cc", "cc", f)
    q = json.loads(bytes.fromhex(d.call("dump", "cc", "cc")[0]))
    if (q["plain"]["sels"], q["plain"]["writeins"], q["plain"]["style"], q["id"], q["plain"]["id"]) != (flat, wis, b["style"], b["id"], b["id"]):
        obs.bad("%s: compact ballot holds %s, expected %s %s" % (way, q["plain"], flat, wis), sig="compact", **case)
    if q["state"] != mark: obs.bad("%s: compact ballot marked %d says %d" % (way, mark, q["state"]), sig="state", **case)
    for fld in ("seed", "code", "nonce"):
        if I(q[fld]) != I(full[fld]): obs.bad("%s: compact ballot's %s differs" % (way, fld), sig="fields", **case)
    if q["ts"] != full["ts"]: obs.bad("%s: compact ballot's timestamp differs" % way, sig="fields", **case)
    d.call("cc_expand", "x", "cc", ss.int, ss.ctx)
    x = ss.dump("cb", "x")
    obs.ev("expand %s%s" % (way, " via " + f if f else ""), key + way, sample="%s %s" % (flat, wis))
    same(obs, full, x, way, case)
    if rng.random() < 0.25:
        v = d.call("cb_valid", "x", ss.mh, ss.K, ss.ext)[0] == "1"
        obs.ev("verified expansion", key)
        if not v: obs.bad("%s: the expanded ballot does not verify" % way, sig="verify", **case)
    e.judge_votes(ss, x["contests"], e.expect(m, b), lambda t: obs.bad("%s: expanded: %s" % (way, t), sig="votes", **case))
    misfits(obs, rng, d, ss, m, b, q, case, key)


def votes_of(m, q):
    """encrypted votes of a compact ballot, None when it does not fit"""
    try:
        ks = e.contests_for(m, q["plain"]["style"])
    except StopIteration:
        return None
    fl = list(q["plain"]["sels"])
    if len(fl) != sum(len(k["sels"]) for k in ks) or len(q["plain"]["writeins"]) != len(fl): return None
    out = []
    for k in ks:
        given = [dict(id=s["id"], vote=fl.pop(0)) for s in sorted(k["sels"], key=lambda s: s["seq"])]
        x = e.expect_contest(m, k, given)
        if x["refuse"]: return None
        out.append((k["id"], x["votes"]))
    return out


def misfits(obs, rng, d, ss, m, b, q, case, key):
    base = votes_of(m, q)
    for t in rng.sample(["drop", "surplus", "drop-writein", "surplus-writein", "empty", "vote", "nonce", "seed", "code", "ts", "id", "style"], 4):
        x = copy.deepcopy(q)
        p = x["plain"]
        if t == "drop": p["sels"].pop(rng.randrange(len(p["sels"])))
        elif t == "surplus": p["sels"].insert(rng.randrange(len(p["sels"]) + 1), 0)
        elif t == "drop-writein": p["writeins"].pop()
        elif t == "surplus-writein": p["writeins"].append("")
        elif t == "empty": p["sels"], p["writeins"] = [], []
        elif t == "vote":
            j = rng.randrange(len(p["sels"]))
            p["sels"][j] = 0 if p["sels"][j] else 1
        elif t == "nonce": x["nonce"] = "%X" % (I(x["nonce"]) ^ 1 << rng.randrange(255))
        elif t == "seed": x["seed"] = "%X" % (I(x["seed"]) ^ 1 << rng.randrange(255))
        elif t == "code": x["code"] = "%X" % (I(x["code"]) ^ 1 << rng.randrange(255))
        elif t == "ts": x["ts"] += 1
        elif t == "id": x["id"] = p["id"] = p["id"] + "x"
        elif t == "style":
            others = [s["id"] for s in m["styles"] if s["id"] != p["style"]]
            if not others: continue
            p["style"] = rng.choice(others)
        if t in ("vote", "style") and votes_of(m, x) == base: continue
        obs.ev("misfit " + t, key + t)
        if t in ("drop", "surplus", "drop-writein", "surplus-writein", "empty") and rng.random() < 0.7:
            d.call("cp_build", "cpx", json.dumps(p).encode())
            try:
                d.call("cp_expand", "px", "cpx", ss.int)
                obs.bad("a compact plaintext ballot with %s was expanded" % t, sig="misfit", compact=e.jdump(x), **case)
            except c.LibEx: pass
        else:
            d.call("cc_build", "ccx", json.dumps(x).encode())
            try:
                d.call("cc_expand", "y", "ccx", ss.int, ss.ctx)
                obs.bad("a compact ballot with altered %s was expanded" % t, sig="altered", compact=e.jdump(x), **case)
            except c.LibEx: pass


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(4, 200))
