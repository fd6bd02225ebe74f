"""Check framework: sharded workloads, observation counting, violations, evidence, known findings."""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
import drv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "build", "replay")
KNOWN = os.path.join(VERIF, "known-findings.jsonl")
MAXV = 20
SOFT = {"quick": 420, "thorough": 10**9}     # workloads end at their next round after this many seconds
HARD = {"quick": 780, "thorough": 10**9}     # and are ended then
END = [0.0]


class Obs:
    """what one worker observed"""
    def __init__(self):
        self.n = 0
        self.kinds = {}
        self.distinct = set()
        self.samples = {}
        self.viol = []
        self.notes = {}
        self.pool = {}
        self.data = {}       # lists a worker hands to the main process

    def unique(self, cat, value):
        """value must not occur twice in its category, in any worker; returns False (and reports) when it did"""
        h = hashlib.blake2b(str(value).encode(), digest_size=12).digest()
        s = self.pool.setdefault(cat, set())
        if h in s:
            self.bad("%s occurs twice: %s" % (cat, str(value)[:200]), sig="repeat")
            return False
        s.add(h)
        return True

    def ev(self, kind, key=None, sample=None, nontrivial=True):
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if key is not None and nontrivial:
            self.distinct.add(hashlib.blake2b((kind + "\0" + str(key)).encode(), digest_size=8).digest())
        if sample is not None and len(self.samples.setdefault(kind, [])) < 1:
            self.samples[kind].append(str(sample)[:400])

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def bad(self, what, sig=None, **detail):
        """a violation; sig identifies the failing input/call site for the known-findings file"""
        if sum(v["sig"] == (sig or "") for v in self.viol) < MAXV // 4 and len(self.viol) < 4 * MAXV:
            self.viol.append(dict(what=str(what)[:2000], sig=sig or "", detail={k: str(v)[:20000] for k, v in detail.items()}))

    def full(self):
        return len(self.viol) >= 2 * MAXV or time.time() > END[0] or (self.viol and time.time() > END[0] - 240)

    def merge(self, o):
        self.n += o.n
        for k, v in o.kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        self.distinct |= o.distinct
        for k, v in o.samples.items():
            self.samples.setdefault(k, v)
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.viol += o.viol
        for k, v in o.data.items():
            self.data.setdefault(k, []).extend(v)
        for k, v in o.pool.items():
            mine = self.pool.setdefault(k, set())
            if mine & v:
                self.bad("%s: %d values were seen by two workers" % (k, len(mine & v)), sig="repeat")
            mine |= v


def library_fault(e):
    """an answer of the library that the workload could not go on with: it threw where the call is well-formed, died,
    does not return, or its output lacks what every correct output has. Failures of the machinery itself (no memory,
    no driver) are not of this kind."""
    return isinstance(e, (drv.LibEx, drv.Died, KeyError, IndexError, ValueError, TypeError, AttributeError, AssertionError))


def _entry(fn, i, n, seed, args, conn):
    try:
        obs = Obs()
        rng = random.Random("%s/%s/%s" % (seed, i, fn.__name__))
        try:
            r = fn(obs, rng, i, n, *args)
        except drv.GiveUp as e:
            obs.bad("the workload could not go on: %s" % e, sig="stopped", trace=traceback.format_exc())
        except Exception as e:
            if not library_fault(e):
                raise
            obs.bad("the workload could not go on: %s: %s" % (type(e).__name__, e), sig="stopped",
                    trace=traceback.format_exc())
        conn.send(("ok", obs))
    except BaseException:
        conn.send(("err", traceback.format_exc()))
    finally:
        conn.close()


class Check:
    def __init__(self, pid, tier, seed, level, rule, assumptions):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rule, self.assumptions = rule, assumptions
        self.t0 = time.time()
        END[0] = self.t0 + SOFT.get(tier, SOFT["quick"])
        self.hard = self.t0 + HARD.get(tier, HARD["quick"])
        self.obs = Obs()
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def shards(self, fn, *args, n=None):
        """run fn(obs, rng, shard, nshards, *args) in parallel processes and merge"""
        n = n or (os.cpu_count() or 4)
        if time.time() > END[0] or self.obs.viol and time.time() > END[0] - 240:
            self.obs.note("workloads not begun for lack of time: %s" % fn.__name__)
            return
        ps = []
        for i in range(n):
            a, b = mp.Pipe(False)
            p = mp.Process(target=_entry, args=(fn, i, n, self.seed, args, b))
            p.start()
            b.close()
            ps.append((p, a))
        for p, a in ps:
            try:
                if not a.poll(max(0.1, self.hard - time.time())):
                    # its own limits ought to have ended it long ago
                    p.kill()
                    p.join()
                    self.obs.note("workers ended by the time limit: %s" % fn.__name__)
                    continue
                st, r = a.recv()
            except EOFError:
                st, r = "err", "worker ended without a result"
            p.join()
            if st == "err":
                raise RuntimeError("worker failed:\n" + r)
            self.obs.merge(r)

    def run(self, fn, *args):
        """run one observation function in this process"""
        fn(self.obs, random.Random("%s/%s" % (self.seed, fn.__name__)), *args)

    def finish(self):
        o = self.obs
        known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("{"):
                    known.append(json.loads(l))
        fresh, seen = [], {}
        for v in o.viol:
            k = next((k for k in known if k.get("status") == "known" and k["property"] == self.pid
                      and v["sig"] and k["signature"] == v["sig"]), None)
            if k:
                seen[k["signature"]] = k
            else:
                fresh.append(v)
        cov = dict(evaluations=o.n, distinct_nontrivial=len(o.distinct), rule=self.rule,
                   samples=[dict(kind=k, case=s) for k, l in sorted(o.samples.items()) for s in l][:40],
                   observed=dict(sorted(o.kinds.items())))
        for k, v in o.pool.items():
            o.notes["distinct values: " + k] = len(v)
        if o.notes:
            cov["notes"] = dict(sorted(o.notes.items()))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, self.pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if fresh:
            os.makedirs(REPLAY, exist_ok=True)
            for i, v in enumerate(fresh[:MAXV]):
                path = os.path.join(REPLAY, "%s-%d.json" % (self.pid, i))
                json.dump(v, open(path, "w"), indent=1)
                print("  %s" % v["what"][:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.pid, o.n, len(o.distinct), time.time() - self.t0))
        return 0
