"""Shared pieces of the checks: driver construction, interesting values."""
import build, drv
from drv import D, Died, Drv, LibEx, line
import oracle as o

LEAKS = drv.ASAN.replace("detect_leaks=0", "detect_leaks=1") + ":leak_check_at_exit=0"
SRC = ["rpc.cpp", "cmd_group.cpp", "cmd_crypto.cpp", "objects.cpp", "cmd_ballot.cpp"]


def egdrv(variant="plain"):
    return build.build(variant, "egdrv", SRC)


def egpure(variant="plain"):
    """the driver with programs over live objects"""
    return build.build(variant, "egpure", SRC + ["cmd_pure.cpp"])


def egpar(variant="plain"):
    """the driver with concurrent execution"""
    return build.build(variant, "egpar", SRC + ["par.cpp"])


def egheap(variant="plain"):
    """the driver with the freed-memory monitor"""
    return build.build(variant, "egheap", SRC + ["heapmon.cpp"])


def egent(variant="plain"):
    """the driver with concurrent execution and the entropy-source monitor"""
    return build.build(variant, "egent", SRC + ["par.cpp", "entropy.cpp"])


def egobj(variant="asan"):
    """the driver with copy histories and document tools"""
    return build.build(variant, "egobj", SRC + ["par.cpp", "cmd_copy.cpp", "hostile.cpp", "entropy.cpp"])


def egcapi(variant="asan"):
    """the driver with the untyped caller of the C interface"""
    return build.build(variant, "egcapi", SRC + ["capi.cpp", "hostile.cpp"], extra_link=["-rdynamic"])


def limb_mix(rng, bits):
    """value assembled from limbs that are zero, all ones, tiny, or random"""
    n = bits // 64
    v = 0
    style = rng.random()
    for i in range(n):
        r = rng.random()
        if style < 0.3:
            l = rng.choice([0, 2**64 - 1])
        elif r < 0.25:
            l = 0
        elif r < 0.5:
            l = 2**64 - 1
        elif r < 0.6:
            l = rng.randrange(4)
        elif r < 0.7:
            l = 2**64 - 1 - rng.randrange(4)
        else:
            l = rng.getrandbits(64)
        v |= l << (64 * i)
    return v


def near(rng, c, spread, lo, hi):
    return max(lo, min(hi, c + rng.randint(-spread, spread)))


def qval(rng, unreduced=True):
    hi = o.MAXQ if unreduced else o.Q - 1
    k = rng.random()
    if k < 0.12:
        v = rng.choice([0, 1, 2, o.Q - 1, o.Q - 2, (o.Q - 1) // 2, (o.Q + 1) // 2, 2**255, 2**64, 2**64 - 1, 2**128, 2**192 - 1])
    elif k < 0.2:
        v = near(rng, o.Q, 400, 0, hi)
    elif k < 0.28:
        v = rng.getrandbits(rng.randrange(1, 257))
    elif k < 0.36:
        v = near(rng, 1 << rng.randrange(256), 2, 0, hi)
    elif k < 0.6:
        v = limb_mix(rng, 256)
    elif k < 0.65 and unreduced:
        v = rng.choice([o.Q, o.Q + 1, o.MAXQ, o.MAXQ - 1, o.Q + rng.randrange(189)])
    else:
        v = rng.getrandbits(256)
    return v if v <= hi else v % o.Q


def pval(rng, unreduced=True):
    hi = o.MAXP if unreduced else o.P - 1
    k = rng.random()
    if k < 0.12:
        v = rng.choice([0, 1, 2, o.P - 1, o.P - 2, (o.P - 1) // 2, (o.P + 1) // 2, 2**4095, o.Q, o.R, o.G, 2**3840, o.MAXP - o.P])
    elif k < 0.2:
        v = near(rng, o.P, 400, 0, hi)
    elif k < 0.28:
        v = rng.getrandbits(rng.randrange(1, 4097))
    elif k < 0.36:
        v = near(rng, 1 << rng.randrange(4096), 2, 0, hi)
    elif k < 0.6:
        v = limb_mix(rng, 4096)
    elif k < 0.66 and unreduced:
        v = rng.choice([o.P, o.P + 1, o.MAXP, o.MAXP - 1, rng.randrange(o.P, o.MAXP)])
    else:
        v = rng.getrandbits(4096)
    return v if v <= hi else v % o.P


def subgroup(rng):
    """random member of the order-q subgroup"""
    return o.powm(o.G, rng.randrange(1, o.Q))


PREBUILD = [("egdrv", "plain"), ("egdrv", "info"), ("egpure", "plain"), ("egpar", "plain"), ("egpar", "tsan"), ("egheap", "plain"), ("egent", "plain"), ("egobj", "asan"), ("egobj", "plain"),
            ("egcapi", "asan")]
