"""Random elections and ballots, and an independent model of what the library must make of them."""
import json, random, datetime
import oracle as o
from oracle import H, PE, QE

ETYPE = ["unknown", "general", "partisanPrimaryClosed", "partisanPrimaryOpen", "primary", "runoff", "special", "other"]
UTYPE = ["unknown", "ballotBatch", "ballotStyleArea", "borough", "city", "cityCouncil", "combinedPrecinct", "congressional", "country",
         "county", "countyCouncil", "dropBox", "judicial", "municipality", "polling_place", "precinct", "school", "special",
         "splitPrecinct", "state", "stateHouse", "stateSenate", "township", "utility", "village", "voteCenter", "ward", "water", "other"]
VTYPE = ["unknown", "one_of_m", "approval", "borda", "cumulative", "majority", "n_of_m", "plurality", "proportional", "range", "rcv",
         "super_majority", "other"]


# ---- generators ---------------------------------------------------------------------------------
def word(rng, lo=1, hi=10):
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789-_") for _ in range(rng.randint(lo, hi)))


def txt(rng, empty=True):
    k = rng.random()
    if k < 0.12 and empty: return ""
    if k < 0.45: return word(rng)
    if k < 0.55: return rng.choice(['"quoted"', "back\\slash", "a|b", "|", "null", "0", "{}", "[1]", "tab\there", "new\nline", "\u0001\u001f",
                                    "a\u0000b", "\u007f", "'", "</x>", "\\u0041", "a" * 300])
    if k < 0.7: return rng.choice(["héllo", "Ñandú", "日本語", "🗳️ vote", "e\u0301", "\u202eabc", "Ω≈ç√", "\ufeffbom", "\U0010ffff", "é" * 40])
    if k < 0.75: return " " + word(rng) + " "
    return " ".join(word(rng) for _ in range(rng.randint(1, 5)))


def text(rng):
    return [[txt(rng), rng.choice(["en", "es", "", "fr-CA", word(rng)])] for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def contact(rng):
    an = lambda: [[txt(rng), txt(rng)] for _ in range(rng.choice([0, 0, 1, 2]))]
    c = dict(name=txt(rng), addr=[txt(rng) for _ in range(rng.choice([0, 1, 2]))], email=an(), phone=an())
    k = rng.random()
    if k < 0.15: c.update(ctor=0, addr=[], email=[], phone=[])
    elif k < 0.3: c.update(ctor=1, email=[], phone=[])
    elif k < 0.4: c.update(ctor=2, email=[])
    return c


def uid(rng, used, odd=True):
    while True:
        s = txt(rng, False) if odd and rng.random() < 0.25 else word(rng, 1, 12)
        if s and s not in used:
            used.add(s)
            return s


def seqs(rng, n, sort):
    k = rng.random() * (0.85 if n > 14 else 1)
    if k < 0.35: v = list(range(n))
    elif k < 0.55: v = list(range(1, n + 1))
    elif k < 0.85: v = rng.sample(range(1000), n)
    else: v = rng.sample([0, 1, 2, 3, 5, 7, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**62], n)
    return sorted(v) if sort else v


def wide(i, first):
    """the shape of a shard's first election: a long contest or many contests; ordinary ones afterwards"""
    return ("sels", "contests")[i % 2] if first else None


def manifest(rng, odd=True, maxc=3, maxs=3, seats=2, in_order=None, wide=None):
    """a valid manifest; contests and selections listed in sequence order when in_order; wide: one long contest ("sels"), many ("contests"), or one with more selections than most elections have ("huge")"""
    if in_order is None:
        in_order = rng.random() < 0.7
    gu, pu, cu, ku, su = set(), set(), set(), set(), set()
    gpus = [dict(id=uid(rng, gu, odd), name=txt(rng), type=rng.randrange(29), contact=contact(rng) if rng.random() < 0.4 else None)
            for _ in range(1 if wide else rng.randint(1, 3))]
    parties = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        p = dict(id=uid(rng, pu, odd), name=text(rng), abbr=txt(rng), color=txt(rng), logo=txt(rng))
        k = rng.random()
        if k < 0.1: p.update(ctor=0, name=[], abbr="", color="", logo="")
        elif k < 0.2: p.update(ctor=1, name=[], color="", logo="")
        elif k < 0.3: p.update(ctor=2, name=[])
        parties.append(p)
    cands = []
    for _ in range(rng.randint(66, 140) if wide == "huge" else rng.randint(9, 13) if wide else rng.randint(1, 5)):
        c = dict(id=uid(rng, cu, odd), name=text(rng), party=rng.choice([""] + [p["id"] for p in parties]), image=txt(rng),
                 writein=rng.random() < 0.4)
        k = rng.random()
        if k < 0.1: c.update(ctor=0, name=[], party="", image="")
        elif k < 0.2: c.update(ctor=1, name=[], image="")
        elif k < 0.25: c.update(ctor=2, party="", image="")
        elif k < 0.3: c.update(ctor=3, image="")
        cands.append(c)
    if wide == "sels" and rng.random() < 0.6:
        for c in cands: c["writein"] = True
    contests = []
    nc = rng.randint(1, maxc)
    if wide: nc = 1 if wide == "huge" else rng.randint(1, 2) if wide == "sels" else rng.randint(6, 9)
    for s in seqs(rng, nc, in_order):
        ns = rng.randint(1, min(maxs, len(cands)))
        if wide: ns = rng.randint(7, 9) if wide == "sels" and not contests else rng.randint(1, 2)
        if wide == "huge": ns = len(cands)
        cc = rng.sample(cands, ns)
        sels = [dict(id=uid(rng, su, odd), cand=c["id"], seq=q) for c, q in zip(cc, seqs(rng, ns, in_order))]
        if rng.random() < 0.25:
            # identifiers of different kinds of objects may coincide: a selection named like its own, or like another, candidate
            for y in sels:
                x = rng.choice(cands)["id"]
                if x not in su:
                    su.discard(y["id"])
                    su.add(x)
                    y["id"] = x
        n = rng.randint(1, min(4 if wide else seats, ns))
        if wide == "sels" and not contests and rng.random() < 0.4: n = rng.randint(5, ns)
        k = dict(id=uid(rng, ku, odd), district=rng.choice(gpus)["id"], seq=s, var=rng.choice([1, 6, 6, rng.randrange(13)]), n=n,
                 votes=rng.choice([n, n, n, 0, n + 1, n + 3]), name=txt(rng), title=rng.choice([None, text(rng)]), subtitle=rng.choice([None, text(rng)]),
                 sels=sels, parties=[])
        r = rng.random()
        if r < 0.2: k.update(ctor=0, title=None, subtitle=None)
        elif r < 0.3: k.update(ctor=1, title=None, subtitle=None, parties=[word(rng)])
        elif r < 0.5: k.update(ctor=3)
        else: k.update(ctor=2, parties=[word(rng) for _ in range(rng.choice([0, 1]))])
        if k["ctor"] in (0, 1):
            k["votes"] = n if k["var"] in (1, 6) else 0
        if rng.random() < 0.12:
            # a selection of its own named like a placeholder the library would generate for this contest
            y = rng.choice(sels)
            x = "%s-%d-placeholder" % (k["id"], max(z["seq"] for z in sels) + rng.randint(1, 2))
            if x not in su:
                su.discard(y["id"])
                su.add(x)
                y["id"] = x
        contests.append(k)
    tu = set()
    styles = []
    for _ in range(rng.randint(1, 3)):
        g = rng.sample([x["id"] for x in gpus], rng.randint(1, len(gpus)))
        if rng.random() < 0.15: g.append(g[0])
        styles.append(dict(id=uid(rng, tu, odd), gpus=g, parties=[p["id"] for p in parties if rng.random() < 0.3], image=rng.choice(["", txt(rng)])))
    # at least one style with a contest
    d = contests[0]["district"]
    if not any(d in s["gpus"] for s in styles):
        styles[0]["gpus"].append(d)
    m = dict(scope=txt(rng), type=rng.randrange(8), start=date(rng), end=date(rng), gpus=gpus, parties=parties, candidates=cands,
             contests=contests, styles=styles, name=rng.choice([None, text(rng)]), contact=rng.choice([None, contact(rng)]))
    if m["name"] is None and m["contact"] is None:
        m["ctor"] = rng.choice([0, 1])
    return m


def date(rng):
    return rng.choice([0, 1, 86399, 951782400, 1582934400, 1614556799, 4102444799, rng.randrange(2**31), rng.randrange(4 * 10**9)])


# ---- model --------------------------------------------------------------------------------------
def iso(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime("%Y-%m-%dT%H:%M:%SZ")


def h_text(t):
    return None if t is None else QE(H([QE(H(v, l)) for v, l in t]))


def h_contact(c):
    if c is None: return None
    return QE(H(c["name"], list(c["addr"]), [QE(H(a, v)) for a, v in c["email"]], [QE(H(a, v)) for a, v in c["phone"]]))


def h_gp(g): return QE(H(g["id"], g["name"], UTYPE[g["type"]], h_contact(g["contact"])))
def h_style(s): return QE(H(s["id"], list(s["gpus"]), list(s["parties"]), s["image"]))
def h_party(p): return QE(H(p["id"], h_text(p["name"]), p["abbr"], p["color"], p["logo"]))
def h_cand(c): return QE(H(c["id"], h_text(c["name"]), c["party"], c["image"]))
def h_sel(s): return QE(H(s["id"], s["seq"], s["cand"]))


def h_contest(k, sort=False):
    sels = sorted(k["sels"], key=lambda s: s["seq"]) if sort else k["sels"]
    return QE(H(k["id"], k["seq"], k["district"], VTYPE[k["var"]], h_text(k["title"]), h_text(k["subtitle"]), k["name"], k["n"], k["votes"],
                [h_sel(s) for s in sels]))


def h_manifest(m, sort=False):
    ks = sorted(m["contests"], key=lambda k: k["seq"]) if sort else m["contests"]
    return QE(H(m["scope"], ETYPE[m["type"]], iso(m["start"]), iso(m["end"]), h_text(m["name"]), h_contact(m["contact"]),
                [h_gp(g) for g in m["gpus"]], [h_party(p) for p in m["parties"]], [h_contest(k, sort) for k in ks],
                [h_style(s) for s in m["styles"]]))


def in_order(m):
    return all(a["seq"] < b["seq"] for a, b in zip(m["contests"], m["contests"][1:])) and \
        all(all(a["seq"] < b["seq"] for a, b in zip(k["sels"], k["sels"][1:])) for k in m["contests"])


def placeholders(k):
    top = max([s["seq"] for s in k["sels"]], default=0)
    out, taken = [], {s["id"] for s in k["sels"]}
    s = top
    while len(out) < k["n"]:
        s += 1
        if "%s-%d-placeholder" % (k["id"], s) in taken: continue
        out.append(dict(id="%s-%d-placeholder" % (k["id"], s), cand="%s-%d-candidate" % (k["id"], s), seq=s))
    return out


def contests_for(m, style):
    s = next(x for x in m["styles"] if x["id"] == style)
    return sorted([k for k in m["contests"] if k["district"] in s["gpus"]], key=lambda k: k["seq"])


def contest_valid(k):
    if k["n"] > len(k["sels"]): return False
    if k["votes"] and k["votes"] < k["n"]: return False
    ids = [s["id"] for s in k["sels"]]
    cs = [s["cand"] for s in k["sels"]]
    q = [s["seq"] for s in k["sels"]]
    return all(ids) and all(cs) and len(set(ids)) == len(ids) and len(set(cs)) == len(cs) and len(set(q)) == len(q)


def manifest_valid(m):
    def uniq(l): return all(l) and len(set(l)) == len(l)
    g, p = [x["id"] for x in m["gpus"]], [x["id"] for x in m["parties"]]
    if not (uniq(g) and uniq(p) and uniq([x["id"] for x in m["candidates"]]) and uniq([x["id"] for x in m["styles"]])
            and uniq([x["id"] for x in m["contests"]])):
        return False
    for s in m["styles"]:
        if not s["gpus"] or any(x not in g for x in s["gpus"]): return False
    for c in m["candidates"]:
        if c["party"] and c["party"] not in p: return False
    q = [k["seq"] for k in m["contests"]]
    if len(set(q)) != len(q): return False
    for k in m["contests"]:
        if not k["district"] or k["district"] not in g or not contest_valid(k): return False
    return True


# ---- ballots ------------------------------------------------------------------------------------
def ballot(rng, m, clean=False, kind=None):
    style = rng.choice([s for s in m["styles"] if contests_for(m, s["id"])])["id"]
    cs = []
    wi = {c["id"]: c["writein"] for c in m["candidates"]}
    for k in contests_for(m, style):
        mode = kind or rng.choice(["full", "full", "under", "none", "zero", "over", "missing", "partial"] + ["all"] * (1 + 2 * (len(k["sels"]) > 4)))
        if mode == "missing" and not clean:
            continue
        votes = {s["id"]: 0 for s in k["sels"]}
        ids = list(votes)
        rng.shuffle(ids)
        if mode == "full": pick = ids[:k["n"]]
        elif mode == "under": pick = ids[:rng.randrange(k["n"] + 1)]
        elif mode == "over": pick = ids[:k["n"] + rng.randint(1, 2)]
        elif mode == "all": pick = ids
        elif mode == "partial": pick = ids[:rng.randint(min(1, k["n"]), k["n"])]
        else: pick = []
        for i in pick: votes[i] = 1
        sels = []
        for s in k["sels"]:
            if not clean and not votes[s["id"]] and rng.random() < 0.4: continue
            if mode == "none" and not clean: continue
            w = ""
            if wi[s["cand"]] and rng.random() < 0.8 or rng.random() < 0.1:
                w = rng.choice([txt(rng), "Jane Doe", "x" * rng.choice([100, 400, 505, 520]), txt(rng)])
                if len(k["sels"]) > 4 and rng.random() < 0.8: w = rng.choice(["", "J", "Jo D", "\u00e9"])  # so that many fit
            sels.append(dict(id=s["id"], vote=votes[s["id"]], writein=w))
        if mode in ("over", "all") and rng.random() < 0.4:
            # several votes on one selection, where that still makes an overvote
            y = rng.choice([x for x in sels if x["vote"]])
            y["vote"] = rng.choice([2, 3, 256, 2**32, 2**63 - 1])
            if not expect_contest(m, k, sels)["over"]: y["vote"] = 1
        if not clean:
            rng.shuffle(sels)
            if rng.random() < 0.1: sels.append(dict(id=word(rng) + "-unknown", vote=rng.randrange(2), writein=""))
            if rng.random() < 0.1 and sels: sels.append(dict(id=sels[0]["id"], vote=0 if sels[0]["vote"] else 1, writein="dup"))
        cs.append(dict(id=k["id"], sels=sels))
    if not clean:
        rng.shuffle(cs)
        if rng.random() < 0.1: cs.append(dict(id="no-such-contest", sels=[dict(id="zz", vote=1, writein="")]))
    return dict(id=txt(rng, False) if rng.random() < 0.3 else "ballot-" + word(rng), style=style, contests=cs)


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"), ensure_ascii=False)


def expect_contest(m, k, given):
    """what encrypting one contest must record; given: list of selections as the voter gave them (first of each identifier counts)"""
    sels = sorted(k["sels"], key=lambda s: s["seq"])
    first = {}
    for g in given:
        first.setdefault(g["id"], g)
    v = [first[s["id"]]["vote"] if s["id"] in first else 0 for s in sels]
    over = sum(x >= 1 for x in v) > k["n"] or sum(v) > (k["votes"] or k["n"])
    refuse = not over and any(x > 1 for x in v)
    wi = {c["id"]: c["writein"] for c in m["candidates"]}
    data = {}
    if over:
        data["error"] = "overvote"
        data["error_data"] = [s["id"] for s, x in zip(sels, v) if x >= 1]
    w = {s["id"]: first[s["id"]].get("writein", "") for s, x in zip(sels, v) if x >= 1 and wi.get(s["cand"])}
    if w:
        data["write_ins"] = w
    real = [0] * len(sels) if over else v
    ph = placeholders(k)
    fill = len(ph) if over else max(0, k["n"] - sum(real))
    votes = real + [1 if i < fill else 0 for i in range(len(ph))]
    return dict(contest=k, sels=sels + ph, votes=votes, nreal=len(sels), over=over, refuse=refuse, data=data,
                plain=(jdump(data).encode() if data else b"")[:510], truncated=len(jdump(data).encode()) > 510 if data else False)


def expect(m, b):
    out = []
    for k in contests_for(m, b["style"]):
        g = next((c["sels"] for c in b["contests"] if c["id"] == k["id"]), [])
        out.append(expect_contest(m, k, g))
    return out


# ---- context, nonces, hashes --------------------------------------------------------------------
def context(mh, key, n, k, commit):
    base = H(PE(o.P), PE(o.Q), PE(o.G), n, k, QE(mh))
    return base, H(QE(base), QE(commit))


class Keys:
    """an election key with fixed-base tables for the oracle"""
    def __init__(self, rng):
        self.s = rng.randrange(2, o.Q)
        self.K = o.powm(o.G, self.s)


def vote_of(pad, data, s):
    """0, 1 or the exponent up to 64, from a ciphertext; None otherwise"""
    gm = data * o.powm(pad, o.Q - s % o.Q) % o.P
    x = 1
    for m in range(65):
        if x == gm: return m
        x = x * o.G % o.P
    return None


def nonces(m, mh, b_id, nonce, k):
    """contest nonce, proof seed, {selection seq position: nonce}, extended data nonce"""
    seed = H(QE(mh), b_id, QE(nonce))
    n = o.Nonces(h_contest(k), QE(seed))
    cn = n.get(k["seq"])
    cp = n.next()
    sn = [o.Nonces(h_sel(s), QE(cn)).get(s["seq"]) for s in sorted(k["sels"], key=lambda s: s["seq"]) + placeholders(k)]
    ed = o.Nonces(cn, "constant-extended-data").get(0)
    return cn, cp, sn, ed


def h_csel(s): return H(s["id"], QE(int(s["dh"], 16)), QE(H(PE(int(s["pad"], 16)), PE(int(s["data"], 16)))))


def h_ccontest(c, stored=True):
    sels = sorted(c["sels"], key=lambda s: s["seq"])
    hs = [QE(int(s["hash"], 16)) if stored else QE(h_csel(s)) for s in sels]
    return H(c["id"], QE(int(c["dh"], 16)), *hs)


def h_cballot(b, mh=None):
    cs = sorted(b["contests"], key=lambda c: c["seq"])
    return H(b["id"], QE(int(b["mh"], 16) if mh is None else mh), *[QE(int(c["hash"], 16)) for c in cs])


# ---- a session: an election loaded into a driver ---------------------------------------------------
class Session:
    def __init__(self, d, rng, m=None, name="", key=None, tail="", **kw):
        self.d, self.rng = d, rng
        self.m = m or manifest(rng, **kw)
        self.key = key or Keys(rng)
        self.s, self.K = self.key.s, self.key.K
        self.man, self.int, self.ctx, self.dev = "man" + name, "int" + name, "ctx" + name, "dev" + name
        d.call("man_build", self.man, json.dumps(self.m).encode())
        d.call("int_make", self.int, self.man)
        self.mh = h_manifest(self.m)
        self.n, self.k = rng.randint(1, 9), rng.randint(1, 9)
        self.commit = rng.randrange(1, o.Q)
        self.base, self.ext = context(self.mh, self.K, self.n, self.k, self.commit)
        d.call("ctx_make", self.ctx, rng.choice(["e", "e", "f", "h"]), str(self.n), str(self.k), "%01024X" % self.K, "%064X" % self.commit, "%064X" % self.mh,
               "-", b"null".hex())
        self.devv = (rng.getrandbits(48), rng.getrandbits(32), rng.getrandbits(20), "place " + word(rng))
        d.call("dev_make", self.dev, *[str(x) for x in self.devv[:3]], self.devv[3].encode())

    def load(self, b, name="pb"):
        self.d.call("pb_build", name, json.dumps(b).encode())

    def dump(self, kind, name):
        return json.loads(bytes.fromhex(self.d.call("dump", kind, name)[0]))

    def encrypt(self, out="cb", pb="pb", seed=None, nonce=None, ts=None, verify=True):
        rng = self.rng
        self.seed = seed if seed is not None else rng.randrange(1, o.Q)
        self.nonce = nonce
        self.ts = ts if ts is not None else rng.randrange(1, 2**40)
        self.d.call("enc_ballot", out, pb, self.int, self.ctx, self.seed, "-" if nonce is None else nonce, str(self.ts), verify)
        return self.dump("cb", out)


def I(h): return int(h, 16)


def judge_votes(ss, cb_contests, exp, bad, mh=None):
    """compare decrypted contents of encrypted contests with the expectation; calls bad(text) for each deviation; returns number of ciphertexts opened"""
    opened = 0
    if [c["id"] for c in cb_contests] != [x["contest"]["id"] for x in exp]:
        bad("contests %s, expected %s" % ([c["id"] for c in cb_contests], [x["contest"]["id"] for x in exp]))
        return 0
    for c, x in zip(cb_contests, exp):
        k = x["contest"]
        if I(c["dh"]) != h_contest(k): bad("contest %r: description hash" % k["id"])
        if c["seq"] != k["seq"]: bad("contest %r: sequence order" % k["id"])
        if [(s["id"], s["seq"]) for s in c["sels"]] != [(s["id"], s["seq"]) for s in x["sels"]]:
            bad("contest %r: selections %s, expected %s" % (k["id"], [(s["id"], s["seq"]) for s in c["sels"]], [(s["id"], s["seq"]) for s in x["sels"]]))
            continue
        if [s["ph"] for s in c["sels"]] != [False] * x["nreal"] + [True] * (len(x["sels"]) - x["nreal"]):
            bad("contest %r: placeholder marks %s" % (k["id"], [s["ph"] for s in c["sels"]]))
        got = []
        for s, ds in zip(c["sels"], x["sels"]):
            if I(s["dh"]) != h_sel(ds): bad("selection %r: description hash" % s["id"])
            got.append(vote_of(I(s["pad"]), I(s["data"]), ss.s))
            opened += 1
        if got != x["votes"]:
            bad("contest %r decrypts to %s, the voter's choices are %s (%d real, %d seats%s)" % (
                k["id"], got, x["votes"], x["nreal"], k["n"], ", overvote" if x["over"] else ""))
        t = vote_of(I(c["acc"][0]), I(c["acc"][1]), ss.s)
        opened += 1
        if t != k["n"]: bad("contest %r: total decrypts to %s, seats %d" % (k["id"], t, k["n"]))
        if not c["proof"] or c["proof"][4] != k["n"]: bad("contest %r: proof is for %s" % (k["id"], c["proof"] and c["proof"][4]))
        h = c["hashed"]
        if not h:
            bad("contest %r: no extra data" % k["id"])
        else:
            try:
                p = hashed_open(I(h["pad"]), bytes.fromhex(h["data"]), bytes.fromhex(h["mac"]), ss.s, ss.ext)
                opened += 1
                if x["truncated"]:
                    if p != x["plain"]: bad("contest %r: cut extra data is %r, expected %r" % (k["id"], p[:80], x["plain"][:80]))
                elif not same_record(p, x["data"]):
                    bad("contest %r: extra data is %r, expected %r" % (k["id"], p[:200], x["plain"][:200]))
            except ValueError as ex:
                bad("contest %r: extra data does not open: %s" % (k["id"], ex))
    return opened


def same_record(p, data):
    if not data: return p == b""
    try:
        return json.loads(p.decode()) == data
    except ValueError:
        return False


def hashed_open(pad, data, mac, s, seed):
    beta = o.powm(pad, s)
    if len(data) != 512: raise ValueError("length %d" % len(data))
    mk, ks = o.hashed_keys(pad, beta, seed, len(data) // 32)
    if o.hm(mk, o.pb(pad) + data) != mac: raise ValueError("tag")
    block = bytes(a ^ b for a, b in zip(data, ks))
    n = int.from_bytes(block[:2], "big")
    if n > 510 or any(block[512 - n:]): raise ValueError("padding")
    return block[2:512 - n]
