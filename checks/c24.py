"""C24: election contexts by every way of making them, against the oracle."""
import json
import common as c
import elect as e
import oracle as o
from oracle import H, PE, QE, P, Q, G

RULE = ("contexts made from elements, accelerated elements and hexadecimal, with and without configuration and extra data, directly and through "
        "JSON and BSON, over boundary counts, keys and hashes; hashes against the oracle, fields against the inputs, and each hashed input "
        "changed alone; distinct by inputs and way")
ASSUMPTIONS = ["hashlib is correct"]
I = e.I


def u64(rng):
    return rng.choice([0, 1, 2, 3, 255, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, rng.getrandbits(63), rng.randrange(1, 20)])


def data(rng):
    k = rng.random()
    if k < 0.4: return None
    return {e.txt(rng).replace("\0", ""): e.txt(rng) for _ in range(rng.choice([0, 1, 2, 5]))}  # BSON keys cannot hold NUL


def key(rng):
    return rng.choice([0, 1, 2, G, P - 1, rng.getrandbits(4088), rng.getrandbits(2000), rng.randrange(P), c.subgroup(rng), c.subgroup(rng), c.subgroup(rng)])


def make(d, name, way, n, k, K, commit, mh, cfg, ext, extra=()):
    d.call("ctx_make", name, way, str(n), str(k), "%01024X" % K, "%064X" % commit, "%064X" % mh, "-" if cfg is None else "%d:%d" % cfg,
           json.dumps(ext).encode(), *extra)
    return json.loads(bytes.fromhex(d.call("dump", "ctx", name)[0]))


def work(obs, rng, i, n_, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        n, k, K, commit, mh = u64(rng), u64(rng), key(rng), c.qval(rng, False), c.qval(rng, False)
        cfg = rng.choice([None, (rng.randrange(2), rng.choice([0, 1, 1000000, 2**63 - 1, rng.getrandbits(40)]))])
        ext = data(rng)
        way = rng.choice("eehhfc")
        if way == "f" and (cfg or ext is not None): way = "e"
        case = dict(inputs=json.dumps(dict(n=n, k=k, key="%X" % K, commit="%X" % commit, mh="%X" % mh, cfg=cfg, ext=ext, way=way)))
        base = H(PE(P), PE(Q), PE(G), n, k, QE(mh))
        full = H(QE(base), QE(commit))
        extra = ()
        if way == "c":
            base, full = c.qval(rng, False), c.qval(rng, False)
            extra = ("%064X" % base, "%064X" % full)
        try:
            r = make(d, "c", way, n, k, K, commit, mh, cfg, ext, extra)
            obs.ev("way %s%s%s" % (way, " cfg" if cfg else "", " data" if ext is not None else ""), case["inputs"], sample=case["inputs"])
            judge(obs, r, n, k, K, commit, mh, cfg, ext, base, full, "made", case)
            for f in "jb":
                doc = bytes.fromhex(d.call("ser", "ctx", "c", f)[0])
                d.call("load", "ctx", "c2", f, doc)
                r2 = json.loads(bytes.fromhex(d.call("dump", "ctx", "c2")[0]))
                obs.ev("reload " + f, case["inputs"])
                judge(obs, r2, n, k, K, commit, mh, cfg, ext, base, full, "reloaded from " + f, case, r)
            if way == "c": continue
            # each hashed input alone; what is not hashed
            what = rng.choice(["n", "k", "mh", "commit", "key", "cfg", "ext"])
            a = dict(n=n, k=k, K=K, commit=commit, mh=mh, cfg=cfg, ext=ext)
            if what in ("n", "k"): a[what] = a[what] ^ (1 << rng.randrange(40)); hashed = True
            elif what == "mh": a["mh"] = (mh ^ (1 << rng.randrange(255))); hashed = True
            elif what == "commit": a["commit"] = commit ^ (1 << rng.randrange(255)); hashed = True
            elif what == "key": a["K"] = key(rng); hashed = False
            elif what == "cfg": a["cfg"] = (rng.randrange(2), rng.getrandbits(30)); hashed = False
            else: a["ext"] = {"x": e.txt(rng)}; hashed = False
            if a["mh"] >= Q or a["commit"] >= Q: continue
            r3 = make(d, "c3", rng.choice("eh"), a["n"], a["k"], a["K"], a["commit"], a["mh"], a["cfg"], a["ext"])
            obs.ev("changed " + what, case["inputs"] + what)
            if (I(r3["ext"]) != I(r["ext"])) != hashed:
                obs.bad("changing %s %s the extended base hash" % (what, "does not change" if hashed else "changes"), sig="binding", **case)
            if what == "commit" and I(r3["base"]) != I(r["base"]): obs.bad("the commitment hash changes the base hash", sig="binding", **case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
        except c.LibEx as ex:
            obs.bad("refused: %s" % ex, sig="refused", **case)
    d.close()


def judge(obs, r, n, k, K, commit, mh, cfg, ext, base, full, what, case, first=None):
    for f, w in (("key", K), ("commit", commit), ("mh", mh), ("base", base), ("ext", full)):
        if I(r[f]) != w: obs.bad("%s: %s is %s, expected %X" % (what, f, r[f], w), sig=f, **case)
    if (r["n"], r["k"]) != (n, k): obs.bad("%s: guardians and quorum are %s, expected %s" % (what, (r["n"], r["k"]), (n, k)), sig="counts", **case)
    if r["data"] != (ext or {}): obs.bad("%s: extra data is %s, expected %s" % (what, r["data"], ext), sig="data", **case)
    if cfg and r["cfg"] != [bool(cfg[0]), cfg[1]]: obs.bad("%s: configuration is %s, expected %s" % (what, r["cfg"], cfg), sig="cfg", **case)
    if first and r["cfg"] != first["cfg"]: obs.bad("%s: configuration is %s, was %s" % (what, r["cfg"], first["cfg"]), sig="cfg", **case)


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(4500, 40000))
