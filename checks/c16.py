"""C16: manifest hashes against an independent implementation; derived descriptions; validity."""
import copy, json
import common as c
import elect as e
from common import line

RULE = ("random manifests (Unicode, quoting, empty and absent optional parts, every constructor, listed in and out of sequence order, sparse "
        "and huge sequence numbers); for each: hash of the manifest and of every part, getters, internal manifest with placeholders, "
        "contests of every style, reload in three formats, and single-attribute changes (hash must follow the oracle and differ) and "
        "validity-breaking changes (verdict must equal the rules); distinct by manifest content")
ASSUMPTIONS = ["hashlib is correct", "a change between values with the same canonical text (empty text, zero, the text 'null') is not a change"]

PARTS = [("gpus", e.h_gp), ("parties", e.h_party), ("candidates", e.h_cand), ("styles", e.h_style)]


def hx(s): return int(s, 16)


def strip(x):
    """content of a model or dump without constructor choices, hashes, verdicts"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("ctor", "hash", "valid", "cid", "isph", "placeholders")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def model(m):
    """what the getters must return"""
    r = strip(copy.deepcopy(m))
    r["contests"] = sorted(r["contests"], key=lambda k: k["seq"])
    for k in r["contests"]:
        k.pop("parties", None)
        k["sels"] = sorted(k["sels"], key=lambda s: s["seq"])
    return r


def diff(a, b, path=""):
    if type(a) != type(b): return "%s: %r vs %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b: return "%s.%s only on one side" % (path, k)
            r = diff(a[k], b[k], path + "." + k)
            if r: return r
        return None
    if isinstance(a, list):
        if len(a) != len(b): return "%s: %d vs %d items" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i))
            if r: return r
        return None
    return None if a == b else "%s: %r vs %r" % (path, a, b)


def canon(v):
    """the canonical text of a scalar attribute"""
    return "null" if v in ("", 0, "null") else str(v)


def mutate(rng, m):
    """change one hashed attribute; returns (description, new manifest) or None"""
    n = copy.deepcopy(m)
    for x in n["parties"] + n["candidates"]: x["ctor"] = 4
    for x in n["contests"]: x["ctor"] = 2
    n["ctor"] = 1
    for x in [n] + n["gpus"]:
        if x["contact"]: x["contact"]["ctor"] = 3
    spots = []

    def scalar(dct, key, name):
        spots.append((name, dct, key))
    scalar(n, "scope", "scope"); scalar(n, "type", "type"); scalar(n, "start", "start"); scalar(n, "end", "end")

    def texts(t, name):
        if t:
            i = rng.randrange(len(t))
            scalar(t[i], rng.randrange(2), name)
    texts(n["name"], "name")

    def cont(ct, name):
        if ct:
            scalar(ct, "name", name + " name")
            if ct["addr"]: scalar(ct["addr"], rng.randrange(len(ct["addr"])), name + " address")
            for k in ("email", "phone"):
                if ct[k]: scalar(ct[k][rng.randrange(len(ct[k]))], rng.randrange(2), name + " " + k)
    cont(n["contact"], "contact")
    for g in n["gpus"]:
        scalar(g, "id", "unit id"); scalar(g, "name", "unit name"); scalar(g, "type", "unit type"); cont(g["contact"], "unit contact")
    for p in n["parties"]:
        for k in ("id", "abbr", "color", "logo"): scalar(p, k, "party " + k)
        texts(p["name"], "party name")
    for k in n["contests"]:
        for a in ("id", "seq", "district", "var", "n", "votes", "name"): scalar(k, a, "contest " + a)
        texts(k["title"], "contest title"); texts(k["subtitle"], "contest subtitle")
        for s in k["sels"]:
            for a in ("id", "seq", "cand"): scalar(s, a, "selection " + a)
    for s in n["styles"]:
        scalar(s, "id", "style id"); scalar(s, "image", "style image"); scalar(s["gpus"], rng.randrange(len(s["gpus"])), "style unit")
        if s["parties"]: scalar(s["parties"], rng.randrange(len(s["parties"])), "style party")
    lists = [(n["gpus"], "units"), (n["parties"], "parties"), (n["contests"], "contests"), (n["styles"], "styles")] + \
        [(k["sels"], "selections") for k in n["contests"]] + [(s["gpus"], "style units") for s in n["styles"]]
    if rng.random() < 0.2:
        l, name = rng.choice(lists)
        if rng.random() < 0.5 and len(l) > 1:
            i, j = rng.sample(range(len(l)), 2)
            if l[i] == l[j]: return None
            l[i], l[j] = l[j], l[i]
            return "order of " + name, n
        if len(l) > 1:
            del l[rng.randrange(len(l))]
            return "number of " + name, n
        return None
    name, d, k = rng.choice(spots)
    old = d[k]
    if isinstance(old, str):
        new = rng.choice([old + "x", old + " ", old[:-1], e.txt(rng), old.upper()])
    elif name in ("type",): new = rng.randrange(8)
    elif name == "unit type": new = rng.randrange(29)
    elif name == "contest var": new = rng.randrange(13)
    elif name in ("start", "end"): new = rng.choice([old + 1, old + 86400, abs(old - 1), old + 3600, e.date(rng)])
    else: new = rng.choice([old + 1, old + 2**32, abs(old - 1), old ^ 1, old + 10])
    if canon(old) == canon(new): return None
    d[k] = new
    return name, n


def breakit(rng, m):
    """a change that may break validity"""
    n = copy.deepcopy(m)
    for x in n["parties"] + n["candidates"]: x["ctor"] = 4
    for x in n["contests"]: x["ctor"] = 2
    for _ in range(rng.choice([1, 1, 1, 2])):
        kind = rng.randrange(16)
        l = rng.choice(["gpus", "parties", "candidates", "contests", "styles"])
        k = rng.choice(n["contests"])
        if kind == 0 and n[l]: rng.choice(n[l])["id"] = ""
        elif kind in (1, 2) and len(n[l]) > 1:
            i, j = rng.sample(range(len(n[l])), 2)
            n[l][i]["id"] = n[l][j]["id"]
        elif kind == 3: rng.choice(n["styles"])["gpus"] = []
        elif kind == 4: rng.choice(n["styles"])["gpus"].insert(rng.randrange(2), "nowhere")
        elif kind == 5: rng.choice(n["candidates"])["party"] = "no-party"
        elif kind == 6 and len(n["contests"]) > 1:
            i, j = rng.sample(range(len(n["contests"])), 2)
            n["contests"][i]["seq"] = n["contests"][j]["seq"]
        elif kind == 7: k["district"] = rng.choice(["", "nowhere"])
        elif kind == 8: k["n"] = len(k["sels"]) + rng.randint(0, 2)
        elif kind == 9: k["votes"] = rng.choice([max(0, k["n"] - 1), k["n"], 0, 1, k["n"] + 5])
        elif kind == 10 and k["sels"]: rng.choice(k["sels"])[rng.choice(["id", "cand"])] = ""
        elif kind == 11 and len(k["sels"]) > 1:
            i, j = rng.sample(range(len(k["sels"])), 2)
            a = rng.choice(["id", "cand", "seq"])
            k["sels"][i][a] = k["sels"][j][a]
        elif kind == 12: n[l] = n[l] + [copy.deepcopy(rng.choice(n[l]))] if n[l] else []
        elif kind == 13: k["sels"] = k["sels"][:-1]
        elif kind == 14: k["n"] = 0
        elif kind == 15: n["gpus"] = n["gpus"][:-1]
    return n


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)

    def blob(x): return json.dumps(x).encode()

    def ask(ln, why):
        raw = d.each([ln])[0]
        f = raw.split("\t")
        if f[0] == "ok": return f[1:]
        obs.bad("%s: %s" % (why, raw[:200]), sig=why, case=ln)
        return None

    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=rng.choice([2, 4]), maxs=rng.choice([2, 4]), seats=3, wide=e.wide(it // 10, it % 10 == 0))
        if ask(line("man_build", "m", blob(m)), "building a manifest") is None: continue
        r = ask(line("dump", "man", "m"), "reading a manifest")
        if r is None: continue
        g = json.loads(bytes.fromhex(r[0]))
        key = e.jdump(m)
        ordered = e.in_order(m)
        want = e.h_manifest(m)
        obs.ev("manifest hash" + ("" if ordered else ", listed out of order"), key, sample=key[:200])
        if hx(g["hash"]) != want:
            obs.bad("manifest hash differs from the independent computation", sig="hash", case=key, got=g["hash"], want="%064x" % want)
        for name, f in PARTS:
            for x, y in zip(m[name], g[name]):
                obs.ev("hash of " + name, e.jdump(x))
                if hx(y["hash"]) != f(x):
                    obs.bad("hash of an item of %s differs from the independent computation" % name, sig="part", case=x, got=y["hash"])
        byid = {k["id"]: k for k in m["contests"]}
        for y in g["contests"]:
            k = byid[y["id"]]
            obs.ev("hash of contests", e.jdump(k))
            if hx(y["hash"]) != e.h_contest(k):
                obs.bad("contest hash differs from the independent computation", sig="contest", case=k, got=y["hash"])
            for s, t in zip(sorted(k["sels"], key=lambda s: s["seq"]), y["sels"]):
                if hx(t["hash"]) != e.h_sel(s):
                    obs.bad("selection hash differs from the independent computation", sig="sel", case=s)
        for ct, y in [(m["contact"], g["contact"])] + [(x["contact"], y["contact"]) for x, y in zip(m["gpus"], g["gpus"])]:
            if ct and (not y or hx(y["hash"]) != e.h_contact(ct)):
                obs.bad("contact hash differs from the independent computation", sig="contact", case=ct)
        df = diff(model(m), strip(g))
        obs.ev("content read back", key)
        if df: obs.bad("content differs from what was given at " + df, sig="content", case=key)
        if g["valid"] is not True:
            obs.bad("a valid manifest is judged invalid", sig="valid", case=key)
        # internal description
        if ask(line("int_make", "i", "m"), "making the internal manifest") is None: continue
        r = ask(line("dump", "int", "i"), "reading the internal manifest")
        if r is None: continue
        im = json.loads(bytes.fromhex(r[0]))

        def judge_contests(got, want_list, what):
            obs.ev(what, key)
            if [x["id"] for x in got] != [k["id"] for k in want_list]:
                obs.bad("%s: contests %s, expected %s" % (what, [x["id"] for x in got], [k["id"] for k in want_list]), sig=what, case=key)
                return
            for x, k in zip(got, want_list):
                kk = model(dict(m, contests=[k]))["contests"][0]
                df = diff(kk, strip(x))
                if df: obs.bad("%s: contest differs at %s" % (what, df), sig=what, case=key)
                if hx(x["hash"]) != e.h_contest(k): obs.bad("%s: contest hash differs from the manifest's" % what, sig=what, case=key)
                ph = e.placeholders(k)
                if [(p["id"], p["cand"], p["seq"]) for p in x["placeholders"]] != [(p["id"], p["cand"], p["seq"]) for p in ph]:
                    obs.bad("%s: placeholders %s, expected %s" % (what, x["placeholders"], ph), sig=what + " placeholders", case=key)
                if x["isph"] != [True] * len(ph) + [False] * len(k["sels"]):
                    obs.bad("%s: placeholder and real selections confused: %s" % (what, x["isph"]), sig=what, case=key)
        if hx(im["hash"]) != want: obs.bad("the internal manifest has another hash", sig="ihash", case=key)
        for nm in ("gpus", "candidates", "styles"):
            df = diff(model(m)[nm], strip(im[nm]))
            if df: obs.bad("internal manifest: %s differ at %s" % (nm, df), sig="icontent", case=key)
        judge_contests(im["contests"], sorted(m["contests"], key=lambda k: k["seq"]), "internal manifest")
        for s in m["styles"]:
            r = ask(line("int_for", "i", s["id"].encode()), "contests of a style")
            if r: judge_contests(json.loads(bytes.fromhex(r[0])), e.contests_for(m, s["id"]), "contests of a style")
            r = ask(line("int_style", "i", s["id"].encode()), "finding a style")
            if r and (r[0] != "1" or bytes.fromhex(r[1]).decode() != s["id"]):
                obs.bad("style %r not found" % s["id"], sig="style", case=key)
        raw = d.each([line("int_for", "i", b"no such style"), line("int_style", "i", b"no such style")])
        obs.ev("unknown style", key)
        if raw[0].split("\t")[0] == "died" or raw[0] not in ("ok\t" + b"[]".hex(),) and not raw[0].startswith("ex"):
            obs.bad("contests of an unknown style: " + raw[0][:100], sig="unknown style", case=key)
        if raw[1] != "ok\t0" and not raw[1].startswith("ex"):
            obs.bad("an unknown style was found: " + raw[1][:100], sig="unknown style", case=key)
        k = rng.choice(m["contests"])
        for s in k["sels"] + e.placeholders(k):
            r = ask(line("int_selfor", "i", k["id"].encode(), s["id"].encode()), "selectionFor")
            if r and (bytes.fromhex(r[0]).decode(), int(r[1])) != (s["id"], s["seq"]):
                obs.bad("selectionFor returns another selection", sig="selfor", case=key)
        # reload
        for f in "jbm":
            r = ask(line("ser", "man", "m", f), "writing a manifest")
            if not r: continue
            if ask(line("load", "man", "r", f, r[0]), "reloading a manifest") is None: continue
            h = hx(d.call("man_hash", "r")[0])
            obs.ev("reload " + f, key)
            if h != want:
                s = "listing-order" if not ordered and h == e.h_manifest(m, sort=True) else "reload"
                obs.bad("the hash of a manifest changes when it is reloaded (%s)" % f, sig=s, case=key)
        # the same instant written in other ways
        r = ask(line("ser", "man", "m", "j"), "writing a manifest")
        if r and ordered:
            doc = json.loads(bytes.fromhex(r[0]))
            for _ in range(2):
                for nm, t in (("start_date", m["start"]), ("end_date", m["end"])):
                    off = rng.choice([0, 60, -300, 330, 765, -720])
                    sg = "-" if off < 0 else "+"
                    if t + off * 60 < 0: off = 0
                    doc[nm] = e.iso(t + off * 60)[:-1] + "%s%02d:%02d" % (sg if off else "+", abs(off) // 60, abs(off) % 60)
                ln = line("load", "man", "r", "j", json.dumps(doc).encode())
                if ask(ln, "reading a manifest with dates in local time") is None: continue
                obs.ev("dates in local time", doc["start_date"] + doc["end_date"], sample=doc["start_date"])
                if hx(d.call("man_hash", "r")[0]) != want:
                    obs.bad("the hash of a manifest changes when its dates are written in local time (%s, %s)"
                            % (doc["start_date"], doc["end_date"]), sig="local time", case=ln)
        sub = dict(m, start=m["start"] + rng.choice([0.001, 0.5, 0.999]), end=m["end"] + rng.choice([0.25, 0.75]))
        if ask(line("man_build", "x", blob(sub)), "building a manifest with milliseconds") is not None:
            obs.ev("dates with milliseconds", key)
            if hx(d.call("man_hash", "x")[0]) != want:
                obs.bad("the hash of a manifest is not over the whole seconds of its dates", sig="milliseconds", case=e.jdump(sub))
        # single-attribute changes and validity
        for _ in range(6):
            mm = mutate(rng, m)
            if not mm: continue
            name, nm = mm
            r = d.each([line("man_build", "x", blob(nm)), line("man_hash", "x")])
            obs.ev("changed " + name, e.jdump(nm))
            if not r[1].startswith("ok"):
                obs.bad("changed %s: %s" % (name, r[1][:150]), sig="mutate", case=nm)
                continue
            h = hx(r[1].split("\t")[1])
            if h != e.h_manifest(nm):
                obs.bad("hash after changing %s differs from the independent computation" % name, sig="mutate", case=nm)
            if h == want:
                obs.bad("hash unchanged after changing %s" % name, sig="mutate", case=nm)
        for _ in range(6):
            nm = breakit(rng, m)
            r = d.each([line("man_build", "x", blob(nm)), line("man_valid", "x")])
            v = e.manifest_valid(nm)
            obs.ev("verdict valid" if v else "verdict invalid", e.jdump(nm))
            if r[1] != ("ok\t1" if v else "ok\t0"):
                obs.bad("manifest judged %s, the rules say %s" % (r[1][:60], v), sig="validity", case=e.jdump(nm))
    d.close()


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(1500, 15000))
