"""Concurrent command lists and ThreadSanitizer reports."""
import json, re
from drv import Drv, Died, Hang

TSAN = "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"


def par(d, threads, jitter=0, seed=1):
    """run the lists of lines at the same time; [(begin, end, answer)] per thread"""
    spec = json.dumps(dict(threads=threads, jitter=jitter, seed=seed))
    r = d.call("par", spec.encode())
    return [[tuple(x) for x in l] for l in json.loads(bytes.fromhex(r[0]))]


def tsan_drv(exe, **kw):
    return Drv(exe, env=dict(TSAN_OPTIONS=TSAN), timeout=kw.pop("timeout", 300), **kw)


def reports(text):
    """ThreadSanitizer reports: (kind, where, excerpt)"""
    out = []
    for blk in re.split(r"(?m)^={10,}$", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
        if not m: continue
        fr = [f for f in re.findall(r"#\d+ (\S[^\n]*?) (?:/|<null>|\()", blk)]
        own = [f for f in fr if "electionguard" in f or "hacl" in f or "Hacl" in f]
        out.append((m.group(1).strip(), "; ".join((own or fr)[:3]), blk.strip()[:6000]))
    return out


def overlap(rec):
    """number of pairs of calls of different threads that overlapped, and the distinct orders seen"""
    ev = []
    for t, l in enumerate(rec):
        for b, e, _ in l: ev += [(b, t, 0), (e, t, 1)]
    ev.sort()
    active, n = 0, 0
    for _, t, k in ev:
        if k == 0:
            n += active
            active += 1
        else: active -= 1
    return n, tuple((t, k) for _, t, k in ev)
