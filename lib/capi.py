"""Client of the C interface (harness/capi.cpp): typed by the declarations in capi_sigs.txt, keeps track of owned and borrowed handles."""
import os, re
import drv

SIGS = {}
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "capi_sigs.txt")):
    r, n, p = l.rstrip("\n").split("|")
    SIGS[n] = (r.strip(), [x.strip() for x in p.split(",") if x.strip()])

RET = {"eg_electionguard_status_t": "s", "bool": "b", "uint64_t": "u"}
BORROWED = {"eg_elgamal_keypair_get_public_key", "eg_elgamal_keypair_get_secret_key", "eg_elgamal_ciphertext_get_pad",
            "eg_elgamal_ciphertext_get_data", "eg_ciphertext_election_context_get_configuration"}
FREE = {"eg_context_configuration_t": "eg_ciphertext_election_context_config_free"}
BORROWED_TEXT = {"eg_linked_list_get_element_at", "eg_linked_list_get_value_at"}
BYTES_FREE = {"eg_compact_plaintext_ballot_to_msgpack": "eg_compact_plaintext_ballot_msgpack_free",
              "eg_compact_ciphertext_ballot_to_msgpack": "eg_compact_ciphertext_ballot_msgpack_free"}


class Hd:
    def __init__(self, name, typ, owned):
        self.name, self.typ, self.owned, self.alive = name, typ, owned, True


class Status(Exception):
    pass


class Exc(Exception):
    pass


class C:
    def __init__(self, d):
        self.d, self.n = d, 0
        self.owned = {}
        self.called = {}
        self.last = []

    def tok(self, p, a):
        if a is None: return ["N"]
        if isinstance(a, Hd):
            return ["H:" + a.name]
        if isinstance(a, bool): return ["U:%d" % a]
        if isinstance(a, int): return ["U:%d" % (a & (2**64 - 1))]
        raise TypeError("%s for %s" % (type(a), p))

    def raw(self, fn, *args):
        """(return value, [outputs]); inputs in order, outputs and the sizes of arrays are filled in"""
        ret, params = SIGS[fn]
        args = list(args)
        toks, outs = [], []
        i = 0
        while i < len(params):
            p = params[i]
            typ = p.split()[-1] if False else p
            name = re.sub(r"\[.*\]", "", p).split()[-1].lstrip("*")
            base = p.replace("const ", "")
            stars = p.count("*")
            arr = p.endswith("]")
            T = base.split()[0]
            if name.startswith("out_") and stars >= 1 and not arr:
                if T == "char" and stars == 2:
                    toks.append("OS:n" if fn in BORROWED_TEXT else "OS"); outs.append(("text", None))
                elif T == "uint8_t" and stars == 2:
                    toks.append("OD" + (":" + BYTES_FREE[fn] if fn in BYTES_FREE else "")); outs.append(("bytes", None))
                elif T == "uint64_t" and stars == 2:
                    toks.append("OL"); outs.append(("limbs", None))
                elif T == "uint64_t": toks.append("OU"); outs.append(("int", None))
                elif T == "bool": toks.append("OB"); outs.append(("bool", None))
                elif T == "int": toks.append("OI"); outs.append(("int", None))
                else:
                    self.n += 1
                    h = Hd("h%d" % self.n, T, not (name.endswith("_ref") or fn in BORROWED))
                    toks.append("OH:" + h.name); outs.append(("handle", h))
                i += 1
                continue
            a = args.pop(0)
            if arr and T == "uint64_t":
                toks.append("A:%d:%x" % (64 if "MAX_P" in p else 4, a))
            elif arr or (T == "char" and stars == 2):
                if T == "char": toks.append("L:" + ",".join(x.encode().hex() or "-" for x in a))
                else: toks.append("HA:" + ",".join(h.name for h in a))
                toks.append("U:%d" % len(a))
                i += 1
            elif T == "char" and stars == 1:
                toks.append("N" if a is None else "S:" + (a.encode() if isinstance(a, str) else a).hex())
            elif T == "uint8_t" and stars == 1:
                toks.append("N" if a is None else "D:" + a.hex())
                toks.append("U:%d" % len(a or b""))
                i += 1
            else:
                toks += self.tok(p, a)
            i += 1
        if args: raise TypeError("too many arguments of " + fn)
        k = RET.get(ret, "e")
        line = "\t".join(["ccall", fn, k] + toks)
        self.last = (self.last + [line[:3000]])[-30:]
        self.called[fn] = self.called.get(fn, 0) + 1
        try:
            r = self.d.parse(self.d.raw([line])[0])
        except drv.LibEx as ex:
            raise Exc("%s let an exception out: %s" % (fn, ex))
        rv = int(r[0])
        res = []
        for (kind, h), v in zip(outs, r[1:]):
            if k == "s" and rv != 0:
                res.append(v)
            elif kind == "handle":
                if v == "set":
                    if h.owned: self.owned[h.name] = h
                    res.append(h)
                else:
                    res.append(None if v == "null" else v)
            elif kind == "text": res.append(bytes.fromhex(v[1:]) if v[0] == "x" else None if v == "null" else v)
            elif kind == "bytes": res.append(bytes.fromhex(v[1:]) if v[0] == "x" else v)
            elif kind == "limbs": res.append(int(v[1:], 16) if v[0] == "x" else v)
            elif kind == "bool": res.append(v == "1")
            else: res.append(int(v) if v != "-" else v)
        return rv, res

    def __call__(self, fn, *args):
        """the outputs (one: itself) of a call that must succeed, or the value returned"""
        rv, res = self.raw(fn, *args)
        if SIGS[fn][0] == "eg_electionguard_status_t":
            if rv: raise Status("%s answers status %d" % (fn, rv))
            if any(isinstance(x, str) for x in res): raise Status("%s succeeds without setting its output" % fn)
            return res[0] if len(res) == 1 else res
        return bool(rv) if SIGS[fn][0] == "bool" else rv

    def free(self, h):
        fn = FREE.get(h.typ, h.typ[:-2] + "_free")
        rv, _ = self.raw(fn, h)
        if rv: raise Status("%s answers status %d" % (fn, rv))
        self.owned.pop(h.name, None)
        h.alive = False
        self.d.call("cforget", h.name)

    def freeall(self, rng):
        l = list(self.owned.values())
        rng.shuffle(l)
        for h in l: self.free(h)
