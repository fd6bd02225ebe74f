#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]: run one property's check."""
import argparse, importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    import drv, fw
    m = importlib.import_module("checks." + a.pid.lower())
    c = fw.Check(a.pid, a.tier, a.seed, getattr(m, "LEVEL", "exploration"), m.RULE, getattr(m, "ASSUMPTIONS", []))
    try:
        m.run(c)
    except (Exception, drv.GiveUp) as e:
        if not (fw.library_fault(e) or isinstance(e, drv.GiveUp)):
            raise
        c.obs.bad("the workload could not go on: %s: %s" % (type(e).__name__, e), sig="stopped",
                  trace=traceback.format_exc())
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
