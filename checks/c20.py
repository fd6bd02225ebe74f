"""C20: the same operations at the same time and one after the other; data races, results, and the internal scheduler."""
import copy, json
import common as c
import elect as e
import oracle as o
import par
from checks import c13
from oracle import Q, P, G, powm

RULE = ("random lists of operations (arithmetic, accelerated exponentiation, hashing, encryption, proofs, verification, serialisation of shared "
        "manifests, contexts and ballots, logging, random numbers, precompute buffers) run by 2 to 6 threads at once, in fresh processes so that the "
        "first use of every shared structure is concurrent, and in prepared ones with shared objects; ThreadSanitizer reports, and every answer "
        "compared with the one a sequential process gives; task scheduler, queue and semaphore with exactly-once and order checkers; distinct by "
        "order of call begins and ends")
ASSUMPTIONS = ["libgmp and hashlib are correct", "ThreadSanitizer sees the races of the schedules that ran",
               "a mediator and the objects a thread creates are not shared between threads"]
I = e.I


def strip(x):
    """remove what is random in a dumped ballot"""
    for k in x["contests"]:
        for s in k["sels"]: s["proof"] = None
    return x


def norm(line, ans):
    """an answer without its random parts; None when there is nothing to compare"""
    cmd = line.split("\t")[0]
    f = ans.split("\t")
    if f[0] != "ok": return ans
    if cmd in ("rand_q", "rand_p"): return "ok %d" % (len(f) - 1)
    if cmd == "dmake": return f[-1]
    if cmd == "dump" and line.split("\t")[1] in ("cb", "sb"):
        return e.jdump(strip(json.loads(bytes.fromhex(f[1]))))
    if cmd == "ser" and line.split("\t")[1] in ("cb", "sb") and line.split("\t")[2].startswith("t"): return "ok"    # own ballots: random proofs
    if cmd in ("enc_contest", "enc_contests"):
        x = json.loads(bytes.fromhex(f[1]))
        return e.jdump(strip(dict(contests=x if isinstance(x, list) else [x])))
    if cmd in ("pre_triple", "pre_tq", "pre_size", "dev_ts"): return None
    return ans


def cold_ops(rng, K, s):
    """lines that need no prepared object"""
    q, p = (lambda: rng.randrange(1, Q)), (lambda: powm(G, rng.randrange(1, 2**64)))
    x, y, r = p(), p(), q()
    m = rng.randrange(2)
    a, b = o.enc(m, r, K)
    ext = q()
    return [
        c.line("powpq", True, K, q()), c.line("powpq", True, x, q()), c.line("powpq", False, x, q()), c.line("gpowq", q()), c.line("gpowp", q()),
        c.line("powpp", False, x, q()), c.line("mulp", x, y), c.line("addp", x, y), c.line("addq", q(), q()), c.line("apbc", q(), q(), q()),
        c.line("subq", q(), q()), c.line("modp", x), c.line("p_enc", x), c.line("q_enc", q()), c.line("p_residue", False, x), c.line("const"),
        c.line("p_fromhex", ("%X" % x).encode(), False), c.line("q_fromhex", ("%X" % q()).encode(), False),
        c.line("hash", "Q:%X" % q(), "P:%X" % x, "S:" + b"text".hex()), c.line("nonces", q(), "S:" + b"hdr".hex(), "g:3", "n"),
        c.line("hmac", b"key" * 9, b"message", "512", "1"), c.line("keypair", s), c.line("enc", str(m), r, True, K), c.line("dec", a, b, s),
        c.line("dec", a, b, q()), c.line("dmake", a, b, r, True, K, ext, "-", str(m)), c.line("cmake", a, b, r, True, K, q(), ext, str(m)),
        c.line("henc", b"write-in", r, K, ext, "510", True), c.line("hdec", a, b"x" * 64, b"y" * 32, s, ext, True),
        c.line("rand_q", "3"), c.line("rand_p", "1"), c.line("pre_tq"), c.line("pre_triple"), c.line("pre_size"),
        c.line("code_device", "1", "2", "3", b"here"), c.line("code_ballot", q(), "9", q()), c.line("enums"),
    ]


def shared_ops(rng, ss, mh, cbdoc):
    """lines that read shared objects"""
    L = [c.line("man_hash", "man"), c.line("man_valid", "man")]
    L += [c.line("ser", k, k, f) for k in ("man", "int", "pb") for f in "jbm"]
    L += [c.line("ser", k, k, f) for k in ("ctx", "dev") for f in "jb"]
    L += [c.line("ser", "cb", "cb", f, n) for f in "jbm" for n in "01"] + [c.line("ser", "sb", "sb", f) for f in "jbm"]
    L += [c.line("dump", k, k) for k in ("man", "int", "ctx", "dev", "pb", "cb", "sb")]
    L += [c.line("cb_calc", "cb"), c.line("cb_valid", "cb", mh ^ 1, ss.K, ss.ext), c.line("cb_valid", "cb", mh, ss.K, ss.ext),
          c.line("cb_valid", "cb", mh, ss.K, ss.ext ^ 1), c.line("int_for", "int", ss.m["styles"][0]["id"].encode()),
          c.line("int_style", "int", b"none"), c.line("dev_ts", "dev")]
    return L


def own_ops(rng, ss, t, docs):
    """a thread's own objects, from shared manifest and context"""
    n = "t%d" % t
    b = e.ballot(rng, ss.m)
    nonce, seed = rng.randrange(1, Q), rng.randrange(1, Q)
    L = [c.line("pb_build", n, json.dumps(b).encode()), c.line("enc_ballot", n, n, "int", "ctx", seed, nonce, "99", rng.random() < 0.2),
         c.line("dump", "cb", n)]
    k = rng.random()
    if k < 0.25: L += [c.line("ser", "cb", n, rng.choice("jbm"), "1"), c.line("sb_from", n, n, "1"), c.line("dump", "sb", n)]
    elif k < 0.45: L += [c.line("enc_compact", n, n, "int", "ctx", seed, nonce, "99", False), c.line("cc_expand", n, n, "int", "ctx"), c.line("dump", "cb", n)]
    elif k < 0.6:
        kind, f, doc = rng.choice(docs)
        L += [c.line("load", kind, n, f, doc), c.line("dump", kind, n)]
    elif k < 0.7: L += [c.line("med_make", n, "int", "ctx", "dev"), c.line("med_encrypt", n, "m" + n, n, rng.random() < 0.3),
                        c.line("cb_valid", "m" + n, ss.mh, ss.K, ss.ext), c.line("med_compact", n, n, n, False)]
    elif k < 0.8: L += [c.line("cb_valid", n, ss.mh, ss.K, ss.ext ^ 2)]
    return L


def compare(obs, T, rec, ref, case):
    for t, l in enumerate(T):
        for line, (_, _, a), r in zip(l, rec[t], ref[t]):
            x, y = norm(line, a), norm(line, r)
            if y is None: continue
            obs.ev("result " + line.split("\t")[0], line + str(y)[:200])
            if x != y:
                if a.startswith("bad") and "no object" not in a: raise RuntimeError("harness: %s -> %s" % (line[:200], a[:200]))
                obs.bad("%s gives %s at the same time as others, %s alone" % (line[:120], str(x)[:200], str(y)[:200]), sig="result", **case)


def race(obs, d, case):
    for kind, where, blk in par.reports(d.stderr()):
        obs.bad("ThreadSanitizer: %s in %s" % (kind, where), sig="tsan " + kind + where, report=blk, **case)


def cold(obs, rng, i, n, exe, plain, count, tsan):
    """first use of everything, concurrently"""
    ref = c.Drv(plain)
    for it in range(count):
        if obs.full(): break
        key = e.Keys(rng)
        ops = cold_ops(rng, key.K, key.s)
        if tsan: ops = [l for l in ops if not l.startswith("powpp")]
        T = []
        same = rng.random() < 0.5
        first = rng.choice(ops)
        for t in range(rng.randint(2, 6)):
            l = [first] if same else []
            l += [rng.choice(ops) for _ in range(rng.randint(2, 5))]
            T.append(l)
        case = dict(threads=json.dumps(T)[:6000])
        d = par.tsan_drv(exe) if tsan else c.Drv(exe)
        try:
            rec = par.par(d, T, jitter=rng.choice([0, 3]), seed=rng.randrange(1, 2**40))
            ov, order = par.overlap(rec)
            obs.ev("first use" + (" under TSan" if tsan else ""), order, sample="%d threads, %d overlapping calls" % (len(T), ov))
            obs.note("overlapping call pairs", ov)
            compare(obs, T, rec, [ref.raw(l) for l in T], case)
            for l, r in zip(T, rec):
                for line, (_, _, a) in zip(l, r):
                    if line.startswith("rand_"):
                        for v in a.split("\t")[1:]: obs.unique("random numbers", v)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
        d.close()
        if tsan: race(obs, d, case)
    ref.close()


def warm(obs, rng, i, n, exe, plain, count, tsan):
    """shared immutable objects"""
    for it in range(count):
        if obs.full(): break
        m = e.manifest(rng, maxc=2, maxs=2, seats=1, odd=False)
        ref = c.Drv(plain)
        d = par.tsan_drv(exe) if tsan else c.Drv(exe)
        case = dict(manifest=e.jdump(m))
        try:
            st = rng.getstate()
            ss = e.Session(ref, rng, m)
            rng.setstate(st)
            ss2 = e.Session(d, rng, m)
            b = e.ballot(rng, m)
            ss.load(b)
            ss.encrypt(nonce=rng.randrange(1, Q), verify=False)
            doc = ref.call("ser", "cb", "cb", "j", "1")[0]
            docs = []
            for k, f in (("man", "j"), ("man", "b"), ("ctx", "j"), ("dev", "b"), ("pb", "m"), ("int", "j"), ("cb", "j"), ("cb", "m")):
                docs.append((k, f, ref.call("ser", k, k, f)[0] if k != "cb" else ref.call("ser", k, k, f, "1")[0]))
            for x in (ref, d):
                x.call("load", "cb", "cb", "j", doc)
                x.call("pb_build", "pb", json.dumps(b).encode())
                x.call("sb_from", "sb", "cb", "1")
            ops = shared_ops(rng, ss, ss.mh, doc)
            T = []
            same = rng.random() < 0.4
            first = rng.choice(ops)
            for t in range(rng.randint(2, 5)):
                l = [first] if same else []
                l += [rng.choice(ops) for _ in range(rng.randint(2, 6))]
                if rng.random() < 0.5: l += own_ops(rng, ss, t, docs)
                T.append(l)
            case["threads"] = json.dumps([[x[:200] for x in l] for l in T])[:8000]
            rec = par.par(d, T, jitter=rng.choice([0, 3]), seed=rng.randrange(1, 2**40))
            ov, order = par.overlap(rec)
            obs.ev("shared objects" + (" under TSan" if tsan else ""), order, sample="%d threads, %d overlapping calls" % (len(T), ov))
            obs.note("overlapping call pairs", ov)
            compare(obs, T, rec, [ref.raw(l) for l in T], case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
        ref.close()
        d.close()
        if tsan: race(obs, d, case)


def sched(obs, rng, i, n, exe, count, tsan):
    d = par.tsan_drv(exe) if tsan else c.Drv(exe)
    for it in range(count):
        if obs.full(): break
        which, th, pr = rng.choice(["pool", "pool", "single"]), rng.randint(1, 6), rng.randint(1, 5)
        tasks, wait = rng.choice([1, 3, 20, 60]), rng.random() < 0.5
        every = rng.choice([0, 0, 1, 3, 7]) if not tsan else 0
        lvl, seed = rng.choice([0, 2, 8]), rng.randrange(1, 2**30)
        case = dict(scheduler=[which, th, pr, tasks, every, wait, lvl, seed])
        try:
            r = d.call("sched", which, str(th), str(pr), str(tasks), str(every), wait, str(lvl), str(seed))
            res, runs = (json.loads(bytes.fromhex(x)) for x in r)
            total = pr * tasks
            obs.ev("scheduler " + which + (" under TSan" if tsan else ""), case["scheduler"], sample="%d tasks by %d producers" % (total, pr))
            if runs != [1] * total:
                obs.bad("tasks ran %s times" % {k: runs.count(k) for k in set(runs)}, sig="exactly once", **case)
            want = ["ex %d" % k if every and k % every == 0 else 3 * k + 1 for k in range(total)]
            if (sorted(res, key=str) if not every else res) != (sorted(want, key=str) if not every else want):
                obs.bad("results %s, expected %s" % (str(res)[:300], str(want)[:300]), sig="result", **case)
            # queue
            p, q, items = rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 5, 100, 400])
            case = dict(queue=[p, q, items, lvl, seed])
            r = d.call("queue", str(p), str(q), str(items), str(lvl), str(seed))
            got = json.loads(bytes.fromhex(r[2]))
            obs.ev("queue" + (" under TSan" if tsan else ""), str([len(x) for x in got]) + str(case), sample="%d items by %d producers, %s taken" % (p * items, p, [len(x) for x in got]))
            if r[:2] != ["1", "1"]: obs.bad("queue empty before/after: %s" % r[:2], sig="empty", **case)
            if sorted(x for l in got for x in l) != list(range(p * items)): obs.bad("items lost or repeated: %s" % str(got)[:400], sig="exactly once", **case)
            for l in got:
                for k in range(p):
                    mine = [x for x in l if k * items <= x < (k + 1) * items]
                    if mine != sorted(mine): obs.bad("items of one producer taken out of order: %s" % mine[:40], sig="order", **case)
            # semaphore
            cnt, t2, rounds = rng.randint(1, 3), rng.randint(1, 6), rng.choice([3, 30])
            case = dict(semaphore=[cnt, t2, rounds, lvl, seed])
            most, left, tot = (int(x) for x in d.call("semaphore", str(cnt), str(t2), str(rounds), str(lvl), str(seed)))
            obs.ev("semaphore" + (" under TSan" if tsan else ""), str(case) + str(most), sample="count %d, %d at once" % (cnt, most))
            if most > cnt or left != cnt or tot != t2 * rounds:
                obs.bad("semaphore of %d let %d in, %d left afterwards, %d acquisitions" % (cnt, most, left, tot), sig="semaphore", **case)
        except c.Died as ex:
            obs.bad("%s" % ex, sig="died", **case)
            d.restart()
    d.close()
    if tsan: race(obs, d, {})


def run(ck):
    plain, ts = c.egpar(), c.egpar("tsan")
    ck.shards(cold, ts, plain, ck.scale(5, 120), True)
    ck.shards(warm, ts, plain, ck.scale(3, 80), True)
    ck.shards(c13.ballots, ts, ck.scale(1, 20), True)
    ck.shards(c13.mixes, ts, ck.scale(2, 40), True)
    ck.shards(sched, ts, ck.scale(3, 40), True)
    ck.shards(sched, plain, ck.scale(25, 1500), False)
    ck.shards(cold, plain, plain, ck.scale(8, 400), False)
    ck.shards(warm, plain, plain, ck.scale(4, 200), False)
