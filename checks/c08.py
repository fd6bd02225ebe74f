"""C08: what an encrypted ballot records, opened with the election secret, against the voter's choices."""
import json
import common as c
import elect as e
import oracle as o
from common import line

RULE = ("random elections and ballots (full, under-, over- and blank votes, missing, repeated and unknown selections and contests, write-ins of "
        "every length and alphabet, contests without seats), encrypted through the one-shot functions, the mediator, the compact form, "
        "per-contest and per-selection functions; every ciphertext, total and extra-data block is opened with the secret key and compared "
        "with an independent model; distinct by (manifest, ballot, way)")
ASSUMPTIONS = ["libgmp, hashlib and hmac are correct"]


def work(obs, rng, i, n, exe, count):
    d = c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=rng.choice([1, 2, 3, 4]), maxs=rng.choice([1, 2, 3, 5]), seats=3, wide="huge" if i == n - 1 and it == 0 else e.wide(i, it == 0))
        if rng.random() < 0.15:
            k = rng.choice(m["contests"])
            k.update(ctor=2, n=0, votes=0)
        try:
            ss = e.Session(d, rng, m)
        except (c.LibEx, c.Died) as ex:
            obs.bad("an election could not be set up: %s" % ex, sig="setup", case=e.jdump(m))
            d.restart(); continue
        med = False
        for bi in range(3):
            b = e.ballot(rng, m)
            if rng.random() < 0.15 and b["contests"]:
                # several votes on one selection, which is an overvote when it exceeds what is allowed
                k = rng.choice(b["contests"])
                if k["sels"]: rng.choice(k["sels"])["vote"] = rng.choice([2, 3, 10])
            exp = e.expect(m, b)
            refuse = any(x["refuse"] for x in exp)
            way = rng.choice(["one-shot", "one-shot", "verified", "mediator", "compact", "contests", "contest", "selection"])
            if len(m["candidates"]) > 60: way = rng.choice(["one-shot", "contests", "contest"])      # proofs of so many take too long to verify
            case = dict(manifest=e.jdump(m), ballot=e.jdump(b), way=way)
            key = e.jdump([m, b]) + way
            try:
                ss.load(b)
                nonce = rng.randrange(1, o.Q)
                if way in ("one-shot", "verified"):
                    cs = ss.encrypt(nonce=rng.choice([nonce, nonce, None]), verify=way == "verified")["contests"]
                elif way == "mediator":
                    if not med: d.call("med_make", "med", ss.int, ss.ctx, ss.dev); med = True
                    d.call("med_encrypt", "med", "cb", "pb", rng.random() < 0.2)
                    cs = ss.dump("cb", "cb")["contests"]
                elif way == "compact":
                    if not med: d.call("med_make", "med", ss.int, ss.ctx, ss.dev); med = True
                    d.call("med_compact", "med", "cc", "pb", False)
                    d.call("cc_expand", "cb", "cc", ss.int, ss.ctx)
                    cs = ss.dump("cb", "cb")["contests"]
                elif way == "contests":
                    cs = json.loads(bytes.fromhex(d.call("enc_contests", "pb", ss.int, ss.ctx, nonce, False)[0]))
                elif way == "contest":
                    cs = []
                    for x in exp:
                        given = next((k["sels"] for k in b["contests"] if k["id"] == x["contest"]["id"]), [])
                        seen, clean = set(), []
                        for s in given:
                            if s["id"] in seen or s["id"] not in [y["id"] for y in x["contest"]["sels"]]: continue
                            seen.add(s["id"]); clean.append(s)
                        cs.append(json.loads(bytes.fromhex(d.call("enc_contest", json.dumps(dict(id=x["contest"]["id"], sels=clean)).encode(), ss.int,
                                                                  x["contest"]["id"].encode(), ss.K, ss.ext, nonce, False)[0])))
                        # the record of an overvote lists choices in the order given when the ballot was not normalised first
                        order = [s["id"] for s in clean]
                        if x["over"] and not x["truncated"]:
                            x["data"]["error_data"].sort(key=order.index)
                            x["plain"] = e.jdump(x["data"]).encode()[:510]
                        elif x["truncated"]:
                            x["data"].get("error_data", []).sort(key=lambda z: order.index(z) if z in order else 0)
                            x["plain"] = e.jdump(x["data"]).encode()[:510]
                else:
                    x = rng.choice(exp)
                    j = rng.randrange(len(x["sels"]))
                    s, v = x["sels"][j], rng.choice([0, 1])
                    r = json.loads(bytes.fromhex(d.call("enc_sel", json.dumps(dict(id=s["id"], vote=v)).encode(), s["id"].encode(), s["cand"].encode(),
                                                        str(s["seq"]), ss.K, ss.ext, nonce, j >= x["nreal"], rng.random() < 0.5)[0]))
                    obs.ev("selection", key, sample="%s -> %d" % (s["id"], v))
                    got = e.vote_of(e.I(r["pad"]), e.I(r["data"]), ss.s)
                    if got != v or r["id"] != s["id"] or r["seq"] != s["seq"] or e.I(r["dh"]) != e.h_sel(s) or r["ph"] != (j >= x["nreal"]):
                        obs.bad("selection encrypted for %d decrypts to %s" % (v, got), sig=way, **case)
                    continue
            except c.LibEx as ex:
                obs.ev("refused", key)
                if not refuse:
                    obs.bad("%s: a fitting ballot was refused: %s" % (way, ex), sig="refused", **case)
                continue
            except c.Died as ex:
                obs.bad("%s: %s" % (way, ex), sig="died", **case)
                d.restart(); break
            if refuse:
                obs.bad("%s: a vote above one that is not an overvote was encrypted" % way, sig="accepted", **case)
                continue
            kinds = set("overvote" if x["over"] else "full" if sum(x["votes"][:x["nreal"]]) == x["contest"]["n"] else "undervote" for x in exp)
            for kd in kinds: obs.note("contests with " + kd)
            if any("write_ins" in x["data"] for x in exp): obs.note("ballots with write-ins")
            if any(x["truncated"] for x in exp): obs.note("ballots with cut extra data")
            obs.ev(way, key, sample="%s %s" % (b["id"], [x["votes"] for x in exp]))
            obs.note("ciphertexts opened", e.judge_votes(ss, cs, exp, lambda t: obs.bad("%s: %s" % (way, t), sig=way, **case)))
    d.close()


def run(ck):
    ck.shards(work, c.egdrv(), ck.scale(40, 500))
