"""C19: every function of the C interface, called as a C program would, in the sanitizer build, against the oracle and the C++ operation."""
import json, re
import capi
import common as c
import elect as e
import oracle as o
from oracle import H, P, Q, PE, QE, powm

RULE = ("histories of C calls in a build with AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer: elements, hashes, encryption, proofs, lists, "
        "manifests built from parts, contexts, devices, mediators, ballots, every getter, every format, invalid and missing arguments; every value "
        "compared with the oracle or the C++ operation, handles freed in random order, leaks counted after every history; distinct by function and input")
ASSUMPTIONS = ["texts have no NUL characters", "handles are of the declared type and not freed", "parts handed to a constructor are only freed afterwards",
               "borrowed outputs are not used after their owner is freed", "dates are in milliseconds and whole seconds"]
I = e.I


class Ses:
    def __init__(self, obs, rng, d):
        self.obs, self.rng, self.d = obs, rng, d
        self.C = capi.C(d)
        self.known = {}

    # -- values
    def qv(self, h):
        v = int(self.C("eg_element_mod_q_to_hex", h), 16)
        l, n = self.C("eg_element_mod_q_get_data", h)
        if l != v or n != 4: self.bad("eg_element_mod_q_get_data and _to_hex disagree: %x %x %s" % (l, v, n))
        return v

    def pv(self, h):
        v = int(self.C("eg_element_mod_p_to_hex", h), 16)
        l, n = self.C("eg_element_mod_p_get_data", h)
        if l != v or n != 64: self.bad("eg_element_mod_p_get_data and _to_hex disagree: %x %x %s" % (l, v, n))
        return v

    def q(self, v): return self.keep(self.C("eg_element_mod_q_new" if v < Q else "eg_element_mod_q_new_unchecked", v), self.qv, v)
    def p(self, v): return self.keep(self.C("eg_element_mod_p_new" if v < P else "eg_element_mod_p_new_unchecked", v), self.pv, v)

    def keep(self, h, read, v):
        """remember the value of an input, which no call may change"""
        self.known[h.name] = (h, read, v)
        return h

    def bad(self, what, sig=None):
        fn = re.findall(r"eg_\w+", what)
        self.obs.bad(what, sig=sig or (fn[0] if fn else "value"), calls="\n".join(self.C.last))

    def eq(self, what, got, want):
        self.obs.ev("value", "%s %s" % (what, want), sample="%s = %s" % (what, str(want)[:120]))
        if got != want: self.bad("%s gives %s, expected %s" % (what, str(got)[:300], str(want)[:300]))

    def txt(self, fn, *a):
        v = self.C(fn, *a)
        return v.decode("utf8", "replace") if v is not None else None

    def refused(self, fn, *a):
        """a failure: non-zero status, no usable-looking output"""
        rv, res = self.C.raw(fn, *a)
        self.obs.ev("refusal", fn + repr([x if not isinstance(x, capi.Hd) else x.typ for x in a])[:400])
        if rv == 0:
            self.bad("%s succeeds on %s" % (fn, repr(a)[:300]), sig=fn + " refusal")
        elif any(x == "set" for x in res):
            self.bad("%s fails (status %d) and leaves something in its output" % (fn, rv), sig=fn + " output")

    def end(self):
        """inputs unchanged; everything freed once, in random order; nothing leaked"""
        for h, read, v in self.known.values():
            if h.alive and read(h) != v: self.bad("an input of type %s changed during the history" % h.typ, sig="input changed")
        self.known = {}
        self.C.freeall(self.rng)
        self.d.call("dropall")
        if self.d.call("leaks")[0] != "0":
            err = self.d.stderr()
            fr = [f for f in re.findall(r"#\d+ 0x\w+ in ([^\n]*)", err) if "eg_" in f] or re.findall(r"#\d+ 0x\w+ in ([^\n]*)", err)
            self.bad("memory leaked; allocated in %s" % re.sub(r" /\S*/", " ", (fr or ["?"])[0]), sig="leak")
        self.obs.ev("history freed without leak", self.obs.n)


# ---- elements, hashes, encryption, proofs ----------------------------------------------------------------
def cxx(s, cmd, v, n):
    """whether the C++ constructor takes these limbs"""
    try: s.d.call(cmd, ",".join("%x" % (v >> 64 * i & (2**64 - 1)) for i in range(n)), False)
    except c.LibEx: return False
    return True


def group(s):
    C, rng = s.C, s.rng
    for _ in range(8):
        v = c.qval(rng)
        if cxx(s, "q_fromarr", v, 4): s.eq("eg_element_mod_q_new(%x)" % v, s.qv(C("eg_element_mod_q_new", v)), v)
        else: s.refused("eg_element_mod_q_new", v)
        s.eq("eg_element_mod_q_new_unchecked(%x)" % v, s.qv(C("eg_element_mod_q_new_unchecked", v)), v)
        hx = rng.choice(["%X", "%x", "%064X", "0%X"]) % v
        for u in (False, True):
            fn = "eg_element_mod_q_from_hex" + ("_unchecked" if u else "")
            try:
                want = I(s.d.call("q_fromhex", hx.encode(), u)[0])
            except c.LibEx:
                s.refused(fn, hx)
            else:
                s.eq("%s(%s)" % (fn, hx), s.qv(C(fn, hx)), want)
        w = c.pval(rng)
        if cxx(s, "p_fromarr", w, 64): s.eq("eg_element_mod_p_new(%x)" % w, s.pv(C("eg_element_mod_p_new", w)), w)
        else: s.refused("eg_element_mod_p_new", w)
        s.eq("eg_element_mod_p_new_unchecked(%x)" % w, s.pv(C("eg_element_mod_p_new_unchecked", w)), w)
    for bad in ["", "zz", "0x12", "F" * 66, "F" * 200, "12 3", "-1", "é"]:
        try:
            want = I(s.d.call("q_fromhex", bad.encode(), False)[0])
        except c.LibEx:
            s.refused("eg_element_mod_q_from_hex", bad)
        else:
            s.eq("eg_element_mod_q_from_hex(%r)" % bad, s.qv(C("eg_element_mod_q_from_hex", bad)), want)
    for n, v in (("p_constant_g", o.G), ("p_constant_p", P), ("p_constant_r", o.R), ("p_constant_zero_mod_p", 0), ("p_constant_one_mod_p", 1),
                 ("p_constant_two_mod_p", 2)):
        s.eq("eg_element_mod_" + n, s.pv(C("eg_element_mod_" + n)), v)
    for n, v in (("q_constant_q", Q), ("q_constant_zero_mod_q", 0), ("q_constant_one_mod_q", 1), ("q_constant_two_mod_q", 2)):
        s.eq("eg_element_mod_" + n, s.qv(C("eg_element_mod_" + n)), v)
    t, n = C("eg_constant_to_json")
    j = {k: I(v) if isinstance(v, str) else v for k, v in json.loads(t).items()}
    s.eq("eg_constant_to_json", sorted(j.values()), sorted([P, Q, o.R, o.G]))
    s.eq("eg_constant_to_json size", n, len(t) + 1)
    for _ in range(3):
        b, x = c.pval(rng, False), c.qval(rng, False)
        s.eq("eg_element_mod_q_pow_mod_p(%x, %x)" % (b, x), s.pv(C("eg_element_mod_q_pow_mod_p", s.p(b), s.q(x))), o.powm(b, x))
    for _ in range(4):
        v = s.qv(C("eg_element_mod_q_rand_q_new"))
        if not 0 <= v < Q: s.bad("eg_element_mod_q_rand_q_new gives %x" % v)
        s.obs.unique("eg_element_mod_q_rand_q_new", v)


def nn(t): return t.replace("\0", "0")


def hashes(s):
    C, rng = s.C, s.rng
    for _ in range(10):
        t = nn(e.txt(rng))
        s.eq("eg_hash_elems_string(%r)" % t, s.qv(C("eg_hash_elems_string", t)), H(t))
        l = [nn(e.txt(rng)) for _ in range(rng.randrange(5))]
        s.eq("eg_hash_elems_strings(%r)" % l, s.qv(C("eg_hash_elems_strings", l)), H(list(l)))
        n = rng.choice([0, 1, 2, 2**32, 2**63, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(20)])
        s.eq("eg_hash_elems_int(%d)" % n, s.qv(C("eg_hash_elems_int", n)), H(n))
        d, ss, l = rng.getrandbits(64), rng.getrandbits(48), rng.getrandbits(20)
        s.eq("eg_ballot_code_get_hash_for_device", s.qv(C("eg_ballot_code_get_hash_for_device", d, ss, l, t)), H(d, ss, l, t))
        a, b, ts = c.qval(rng, False), c.qval(rng, False), rng.getrandbits(rng.choice([0, 31, 41, 63]))
        s.eq("eg_ballot_code_get_ballot_code", s.qv(C("eg_ballot_code_get_ballot_code", s.q(a), ts, s.q(b))), H(QE(a), ts, QE(b)))


def encryption(s):
    C, rng, d = s.C, s.rng, s.d
    sec = rng.choice([rng.randrange(2, Q), 2, 3, Q - 1])
    kp = C("eg_elgamal_keypair_from_secret_new", s.q(sec))
    K = o.powm(o.G, sec)
    s.eq("eg_elgamal_keypair_get_public_key", s.pv(C("eg_elgamal_keypair_get_public_key", kp)), K)
    s.eq("eg_elgamal_keypair_get_secret_key", s.qv(C("eg_elgamal_keypair_get_secret_key", kp)), sec)
    s.refused("eg_elgamal_keypair_from_secret_new", None)
    for v in (0, 1):
        try: d.call("keypair", v)
        except c.LibEx: s.refused("eg_elgamal_keypair_from_secret_new", s.q(v))
    Kh = s.p(K)
    for m in (0, 1, rng.choice([2, 3, 7, 2**20, 2**64 - 1])):
        r = rng.randrange(1, Q)
        try:
            want = [I(x) for x in d.call("enc", str(m), r, False, K)]
        except c.LibEx:
            s.refused("eg_elgamal_encrypt", m, s.q(r), Kh)
            continue
        ct = C("eg_elgamal_encrypt", m, s.q(r), Kh)
        s.eq("eg_elgamal_ciphertext_get_pad", s.pv(C("eg_elgamal_ciphertext_get_pad", ct)), o.powm(o.G, r))
        s.eq("eg_elgamal_ciphertext_get_data", s.pv(C("eg_elgamal_ciphertext_get_data", ct)), o.powm(o.G, m) * o.powm(K, r) % P)
        s.eq("eg_elgamal_encrypt against C++", [s.pv(C("eg_elgamal_ciphertext_get_pad", ct)), s.pv(C("eg_elgamal_ciphertext_get_data", ct))], want)
        s.eq("eg_elgamal_ciphertext_crypto_hash", s.qv(C("eg_elgamal_ciphertext_crypto_hash", ct)), H(PE(want[0]), PE(want[1])))
        if m < 10:
            # the C++ operation answers for votes of 0 and 1 only; the C one must say what it says
            try: want_m = m if m < 2 else int(d.call("dec", want[0], want[1], sec)[0])
            except c.LibEx: s.refused("eg_elgamal_ciphertext_decrypt_with_secret", ct, s.q(sec))
            else: s.eq("eg_elgamal_ciphertext_decrypt_with_secret", C("eg_elgamal_ciphertext_decrypt_with_secret", ct, s.q(sec)), want_m)
        if m > 1: continue
        # selection proofs
        ext, seed = rng.randrange(Q), rng.randrange(Q)
        pr = C("eg_disjunctive_chaum_pedersen_proof_make_deterministic", ct, s.q(r), Kh, s.q(ext), s.q(seed), m)
        want = [I(x) for x in d.call("dmake", want[0], want[1], r, False, K, ext, "%x" % seed, str(m))][:9]
        got = dproof(s, pr)
        s.eq("eg_disjunctive_chaum_pedersen_proof_make_deterministic", got, want)
        isv = "eg_disjunctive_chaum_pedersen_proof_is_valid"
        s.eq(isv, C(isv, pr, ct, Kh, s.q(ext)), True)
        s.eq(isv + " other context", C(isv, pr, ct, Kh, s.q((ext + 1) % Q)), False)
        s.eq(isv + " other key", C(isv, pr, ct, s.p(K * o.G % P), s.q(ext)), False)
        s.eq(isv + " other message", C(isv, pr, C("eg_elgamal_encrypt", 1 - m, s.q(r), Kh), Kh, s.q(ext)), False)
        pr2 = C("eg_disjunctive_chaum_pedersen_proof_make", ct, s.q(r), Kh, s.q(ext), m)
        s.eq("eg_disjunctive_chaum_pedersen_proof_make", C(isv, pr2, ct, Kh, s.q(ext)), True)
        s.obs.unique("commitments of eg_disjunctive_chaum_pedersen_proof_make", dproof(s, pr2)[0])
        wrong = C("eg_disjunctive_chaum_pedersen_proof_make_deterministic", ct, s.q(r), Kh, s.q(ext), s.q(seed), 1 - m)
        s.eq("proof of the wrong vote", C(isv, wrong, ct, Kh, s.q(ext)), False)
        args = [ct, s.q(r), Kh, s.q(ext)]
        for bad in (2, 3, 2**64 - 1):
            s.refused("eg_disjunctive_chaum_pedersen_proof_make", *args, bad)
            s.refused("eg_disjunctive_chaum_pedersen_proof_make_deterministic", *args, s.q(seed), bad)
        # contest proofs
        mk = "eg_constant_chaum_pedersen_proof_make"
        cp = C(mk, ct, s.q(r), Kh, s.q(seed), s.q(ext), m)
        a, b = o.powm(o.G, r), o.powm(o.G, m) * o.powm(K, r) % P
        want = [I(x) for x in d.call("cmake", a, b, r, False, K, seed, ext, str(m))[:4]]
        s.eq(mk, cproof(s, cp), want)
        isc = "eg_constant_chaum_pedersen_proof_is_valid"
        s.eq(isc, C(isc, cp, ct, Kh, s.q(ext)), True)
        s.eq(isc + " other context", C(isc, cp, ct, Kh, s.q((ext + 1) % Q)), False)
        s.eq(isc + " wrong constant", C(isc, C(mk, ct, s.q(r), Kh, s.q(seed), s.q(ext), m + 1), ct, Kh, s.q(ext)), False)
        bigs = s.p(P) if rng.random() < .5 else s.p(o.MAXP)
        C(isv, pr, ct, bigs, s.q(ext)), C(isc, cp, ct, bigs, s.q(ext))


def dproof(s, pr):
    C, n = s.C, "eg_disjunctive_chaum_pedersen_proof_get_"
    return [s.pv(C(n + x, pr)) for x in ("zero_pad", "zero_data", "one_pad", "one_data")] + \
           [s.qv(C(n + x, pr)) for x in ("zero_challenge", "one_challenge", "challenge", "zero_response", "one_response")]


def cproof(s, pr):
    C, n = s.C, "eg_constant_chaum_pedersen_proof_get_"
    return [s.pv(C(n + x, pr)) for x in ("pad", "data")] + [s.qv(C(n + x, pr)) for x in ("challenge", "response")]


# ---- lists -----------------------------------------------------------------------------------------------
def lists(s):
    C, rng = s.C, s.rng
    l, model = C("eg_linked_list_new"), []
    for _ in range(rng.randint(5, 40)):
        k = rng.random()
        if k < 0.6:
            kv = (nn(e.txt(rng)), nn(e.txt(rng)))
            C("eg_linked_list_append", l, *kv)
            model.append(kv)
        elif k < 0.85 and model:
            C("eg_linked_list_delete_last", l)
            model.pop()
        s.eq("eg_linked_list_get_count", C("eg_linked_list_get_count", l), len(model))
        i = rng.choice([0, len(model) - 1, len(model), len(model) + 1, rng.randrange(50), 2**63])
        if 0 <= i < len(model):
            s.eq("eg_linked_list_get_element_at", tuple(x.decode() for x in C("eg_linked_list_get_element_at", l, i)), model[i])
            s.eq("eg_linked_list_get_value_at", C("eg_linked_list_get_value_at", l, i).decode(), model[i][1])
        elif i >= 0:
            s.refused("eg_linked_list_get_element_at", l, i)
            s.refused("eg_linked_list_get_value_at", l, i)
    s.eq("eg_linked_list contents", [tuple(x.decode() for x in C("eg_linked_list_get_element_at", l, i)) for i in range(len(model))], model)


# ---- manifests from parts ----------------------------------------------------------------------------------
def cmanifest(rng, **kw):
    """a manifest that the C constructors can express"""
    m = e.manifest(rng, **kw)

    def clean(x):
        if isinstance(x, str): return nn(x)
        if isinstance(x, list): return [clean(y) for y in x]
        if isinstance(x, dict): return {k: clean(v) for k, v in x.items()}
        return x
    m = clean(m)
    for k in m["contests"]:
        if k["ctor"] in (2, 3):
            k["title"] = k["title"] or e_text(rng)
            k["subtitle"] = k["subtitle"] or e_text(rng)
    if (m["name"] is None) != (m["contact"] is None) or rng.random() < .3:
        m["name"], m["contact"] = e_text(rng), clean(e.contact(rng))
    return m


def e_text(rng): return [[nn(a), b] for a, b in e.text(rng)]


def hq(s, fn, h, want): s.eq(fn, s.qv(s.C(fn, h)), I(want) if isinstance(want, str) else want)


def mk_text(s, t):
    C = s.C
    ls = []
    for v, l in t:
        h = C("eg_language_new", v, l)
        s.eq("eg_language_get_value", s.txt("eg_language_get_value", h), v)
        s.eq("eg_language_get_language", s.txt("eg_language_get_language", h), l)
        hq(s, "eg_language_crypto_hash", h, H(v, l))
        ls.append(h)
    x = C("eg_internationalized_text_new", ls)
    see_text(s, x, t)
    return x


def see_text(s, x, t):
    C = s.C
    s.eq("eg_internationalized_text_get_text_size", C("eg_internationalized_text_get_text_size", x), len(t))
    got = []
    for i in range(len(t)):
        h = C("eg_internationalized_text_get_text_at_index", x, i)
        got.append([s.txt("eg_language_get_value", h), s.txt("eg_language_get_language", h)])
    s.eq("eg_internationalized_text", got, t)
    s.refused("eg_internationalized_text_get_text_at_index", x, len(t) + s.rng.choice([0, 1, 2**40]))
    hq(s, "eg_intertnationalized_text_crypto_hash", x, s.qh(e.h_text(t)))


def mk_contact(s, k):
    C = s.C
    an = lambda l: [C("eg_annotated_string_new", a, v) for a, v in l]
    for a, v in k["email"][:1]:
        h = C("eg_annotated_string_new", a, v)
        s.eq("eg_annotated_string_get_annotation", s.txt("eg_annotated_string_get_annotation", h), a)
        s.eq("eg_annotated_string_get_value", s.txt("eg_annotated_string_get_value", h), v)
        hq(s, "eg_annotated_string_crypto_hash", h, H(a, v))
    if not k["addr"] and not k["email"] and not k["phone"] and s.rng.random() < .7:
        x = C("eg_contact_information_new", k["name"])
    else:
        x = C("eg_contact_information_new_with_collections", k["name"], k["addr"], an(k["email"]), an(k["phone"]))
    see_contact(s, x, k)
    return x


def see_contact(s, x, k):
    C, n = s.C, "eg_contact_information_"
    s.eq(n + "get_name", s.txt(n + "get_name", x), k["name"])
    s.eq(n + "get_address_line_size", C(n + "get_address_line_size", x), len(k["addr"]))
    s.eq(n + "get_address_line_at_index", [s.txt(n + "get_address_line_at_index", x, i) for i in range(len(k["addr"]))], k["addr"])
    s.refused(n + "get_address_line_at_index", x, len(k["addr"]))
    for w in ("email", "phone"):
        s.eq(n + "get_%s_line_size" % w, C(n + "get_%s_line_size" % w, x), len(k[w]))
        got = []
        for i in range(len(k[w])):
            h = C(n + "get_%s_line_at_index" % w, x, i)
            got.append([s.txt("eg_annotated_string_get_annotation", h), s.txt("eg_annotated_string_get_value", h)])
        s.eq(n + "get_%s_line_at_index" % w, got, k[w])
        s.refused(n + "get_%s_line_at_index" % w, x, len(k[w]))
    hq(s, n + "crypto_hash", x, s.qh(e.h_contact(k)))


def see_gp(s, x, g):
    n = "eg_geopolitical_unit_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", x), g["id"])
    s.eq(n + "get_name", s.txt(n + "get_name", x), g["name"])
    if n + "get_type" in capi.SIGS: s.eq(n + "get_type", s.C(n + "get_type", x), g["type"])
    hq(s, n + "crypto_hash", x, s.qh(e.h_gp(g)))


def mk_gp(s, g):
    C = s.C
    if g["contact"] is None: x = C("eg_geopolitical_unit_new", g["id"], g["name"], g["type"])
    else: x = C("eg_geopolitical_unit_new_with_contact_info", g["id"], g["name"], g["type"], mk_contact(s, g["contact"]))
    see_gp(s, x, g)
    return x


def see_style(s, x, t):
    C, n = s.C, "eg_ballot_style_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", x), t["id"])
    s.eq(n + "get_image_uri", s.txt(n + "get_image_uri", x), t["image"])
    for w, k in (("geopolitical_unit", "gpus"), ("party", "parties")):
        s.eq(n + w + "_ids_size", C(n + "get_%s_ids_size" % w, x), len(t[k]))
        s.eq(n + w, [s.txt(n + "get_%s_id_at_index" % w, x, i) for i in range(len(t[k]))], t[k])
        s.refused(n + "get_%s_id_at_index" % w, x, len(t[k]))
    hq(s, n + "crypto_hash", x, s.qh(e.h_style(t)))


def mk_style(s, t):
    C = s.C
    if not t["parties"] and not t["image"]: x = C("eg_ballot_style_new", t["id"], t["gpus"])
    else: x = C("eg_ballot_style_new_with_parties", t["id"], t["gpus"], t["parties"], t["image"])
    see_style(s, x, t)
    return x


def see_party(s, x, p):
    C, n = s.C, "eg_party_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", x), p["id"])
    s.eq(n + "get_abbreviation", s.txt(n + "get_abbreviation", x), p["abbr"])
    s.eq(n + "get_color", s.txt(n + "get_color", x), p["color"])
    s.eq(n + "get_logo_uri", s.txt(n + "get_logo_uri", x), p["logo"])
    see_text(s, C(n + "get_name", x), p["name"])
    hq(s, n + "crypto_hash", x, s.qh(e.h_party(p)))


def mk_party(s, p):
    C = s.C
    if not (p["name"] or p["abbr"] or p["color"] or p["logo"]): x = C("eg_party_new", p["id"])
    else: x = C("eg_party_new_with_extras", p["id"], mk_text(s, p["name"]), p["abbr"], p["color"], p["logo"])
    see_party(s, x, p)
    return x


def see_cand(s, x, k):
    C, n = s.C, "eg_candidate_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", x), k["id"])
    s.eq(n + "get_candidate_id", s.txt(n + "get_candidate_id", x), k["id"])
    s.eq(n + "get_party_id", s.txt(n + "get_party_id", x), k["party"])
    s.eq(n + "get_image_uri", s.txt(n + "get_image_uri", x), k["image"])
    s.eq(n + "get_is_write_in", C(n + "get_is_write_in", x), bool(k["writein"]))
    see_text(s, C(n + "get_name", x), k["name"])
    hq(s, n + "crypto_hash", x, s.qh(e.h_cand(k)))


def mk_cand(s, k):
    C = s.C
    if not k["name"] and not k["image"]:
        if k["party"]: x = C("eg_candidate_new_with_party", k["id"], k["party"], bool(k["writein"]))
        else: x = C("eg_candidate_new", k["id"], bool(k["writein"]))
    else: x = C("eg_candidate_new_with_extras", k["id"], mk_text(s, k["name"]), k["party"], k["image"], bool(k["writein"]))
    see_cand(s, x, k)
    return x


def see_sel(s, x, k):
    n = "eg_selection_description_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", x), k["id"])
    s.eq(n + "get_candidate_id", s.txt(n + "get_candidate_id", x), k["cand"])
    s.eq(n + "get_sequence_order", s.C(n + "get_sequence_order", x), k["seq"])
    hq(s, n + "crypto_hash", x, s.qh(e.h_sel(k)))


def mk_sel(s, k):
    x = s.C("eg_selection_description_new", k["id"], k["cand"], k["seq"])
    see_sel(s, x, k)
    return x


def see_contest(s, x, k):
    C, n = s.C, "eg_contest_description_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", x), k["id"])
    s.eq(n + "get_electoral_district_id", s.txt(n + "get_electoral_district_id", x), k["district"])
    s.eq(n + "get_sequence_order", C(n + "get_sequence_order", x), k["seq"])
    s.eq(n + "get_vote_variation", C(n + "get_vote_variation", x), k["var"])
    s.eq(n + "get_number_elected", C(n + "get_number_elected", x), k["n"])
    s.eq(n + "get_votes_allowed", C(n + "get_votes_allowed", x), k["votes"])
    s.eq(n + "get_name", s.txt(n + "get_name", x), k["name"])
    for w in ("title", "subtitle"):
        if k[w] is not None: see_text(s, C(n + "get_ballot_" + w, x), k[w])
    s.eq(n + "get_selections_size", C(n + "get_selections_size", x), len(k["sels"]))
    for i, y in enumerate(k["sels"]): see_sel(s, C(n + "get_selection_at_index", x, i), y)
    s.refused(n + "get_selection_at_index", x, len(k["sels"]))
    hq(s, n + "crypto_hash", x, s.qh(e.h_contest(k)))


def mk_contest(s, k, ph=None):
    """ph: with these placeholder selections"""
    C = s.C
    n = "eg_contest_description_" + ("with_placeholders_" if ph is not None else "")
    sels = [mk_sel(s, y) for y in k["sels"]]
    tail = [] if ph is None else [[mk_sel(s, y) for y in ph]]
    a = [k["id"], k["district"], k["seq"], k["var"], k["n"]]
    if k["ctor"] == 0: x = C(n + "new", *a, k["name"], sels, *tail)
    elif k["ctor"] == 1: x = C(n + "new_with_parties", *a, k["name"], sels, k["parties"], *tail)
    else:
        t = [mk_text(s, k["title"]), mk_text(s, k["subtitle"])]
        if k["ctor"] == 3: x = C(n + "new_with_title", *a, k["votes"], k["name"], *t, sels, *tail)
        else: x = C(n + "new_with_title_and_parties", *a, k["votes"], k["name"], *t, sels, k["parties"], *tail)
    if ph is None: see_contest(s, x, k)
    else: see_placeholders(s, x, k, ph)
    return x


def see_placeholders(s, x, k, ph):
    C, n = s.C, "eg_contest_description_with_placeholders_"
    s.eq(n + "get_placeholders_size", C(n + "get_placeholders_size", x), len(ph))
    for i, y in enumerate(ph):
        h = C(n + "get_placeholder_at_index", x, i)
        see_sel(s, h, y)
        s.eq(n + "is_placeholder", C(n + "is_placeholder", x, h), True)
    s.refused(n + "get_placeholder_at_index", x, len(ph))
    ids = {y["id"] for y in ph}
    for y in k["sels"]:
        h = C(n + "selection_for_id", x, y["id"])
        see_sel(s, h, y)
        s.eq(n + "is_placeholder of a real selection", C(n + "is_placeholder", x, h), y["id"] in ids)
    for i in {y["id"] for y in ph} - {y["id"] for y in k["sels"]}:
        see_sel(s, C(n + "selection_for_id", x, i), next(y for y in ph if y["id"] == i))
    s.refused(n + "selection_for_id", x, "no such selection")


def qh(self, t):
    """value of a hash term of the model"""
    return int(t) if not isinstance(t, tuple) else t[1]


Ses.qh = qh


def docs(s, kind, prefix, h, fmts, name, forms=("json", "bson", "msgpack"), nonces=False):
    """what the handle serialises to is what the C++ object serialises to, and reading it back gives the same document"""
    C = s.C
    for f in forms:
        want = bytes.fromhex(s.d.call("ser", kind, name, f[0], "1" if nonces else "0")[0])
        fn = prefix + "to_" + f + ("_with_nonces" if nonces else "")
        got, n = C(fn, h)
        s.eq(fn, got, want)
        s.eq(fn + " size", n, len(want) + (f == "json"))
        back = C(prefix + "from_" + f, got)
        again, _ = C(fn, back)
        s.eq(prefix + "from_" + f, again, want)
        bad = got[:-1 - s.rng.randrange(len(got) // 2)]
        try: s.d.call("load", kind, "zz", f[0], bad)
        except c.LibEx: s.refused(prefix + "from_" + f, bad)
        for junk in (b"", b"{}", b"null", b"[]", b"\xff\xfe", b"{\"a\":1}"):
            try: s.d.call("load", kind, "zz", f[0], junk)
            except c.LibEx: s.refused(prefix + "from_" + f, junk)
            else: C(prefix + "from_" + f, junk)


def c_manifest(s, m):
    C = s.C
    g, p, k = [mk_gp(s, x) for x in m["gpus"]], [mk_party(s, x) for x in m["parties"]], [mk_cand(s, x) for x in m["candidates"]]
    t, y = [mk_contest(s, x) for x in m["contests"]], [mk_style(s, x) for x in m["styles"]]
    a = [m["scope"], m["type"], m["start"] * 1000, m["end"] * 1000, g, p, k, t, y]
    if m["name"] is None: x = C("eg_election_manifest_new", *a)
    else: x = C("eg_election_manifest_new_with_contact", *a, mk_text(s, m["name"]), mk_contact(s, m["contact"]))
    return x


def see_manifest(s, x, m):
    C, n = s.C, "eg_election_manifest_"
    s.eq(n + "get_election_scope_id", s.txt(n + "get_election_scope_id", x), m["scope"])
    s.eq(n + "get_type", C(n + "get_type", x), m["type"])
    s.eq(n + "get_start_date", C(n + "get_start_date", x), m["start"] * 1000)
    s.eq(n + "get_end_date", C(n + "get_end_date", x), m["end"] * 1000)
    for w, one, l, see in (("geopolitical_units", "geopolitical_unit", m["gpus"], see_gp), ("parties", "party", m["parties"], see_party),
                           ("candidates", "candidate", m["candidates"], see_cand), ("contests", "contest", m["contests"], see_contest),
                           ("ballot_styles", "ballot_style", m["styles"], see_style)):
        s.eq(n + "get_%s_size" % w, C(n + "get_%s_size" % w, x), len(l))
        for i, y in enumerate(l): see(s, C(n + "get_%s_at_index" % one, x, i), y)
        s.refused(n + "get_%s_at_index" % one, x, len(l) + s.rng.choice([0, 1, 2**62]))
    if m["name"] is not None:
        see_text(s, C(n + "get_name", x), m["name"])
        see_contact(s, C(n + "get_contact_info", x), m["contact"])
    hq(s, n + "crypto_hash", x, s.qh(e.h_manifest(m)))
    s.eq(n + "is_valid", C(n + "is_valid", x), e.manifest_valid(m))


def manifests(s):
    C, rng, d = s.C, s.rng, s.d
    m = cmanifest(rng, in_order=True)
    if rng.random() < .3: spoil(rng, m)
    d.call("man_build", "m", json.dumps(m).encode())
    x = c_manifest(s, m)
    see_manifest(s, x, m)
    docs(s, "man", "eg_election_manifest_", x, None, "m")
    if e.manifest_valid(m):
        d.call("int_make", "i", "m")
        i = C("eg_internal_manifest_new", x)
        see_internal(s, i, m)
        docs(s, "int", "eg_internal_manifest_", i, None, "i")
        if d.call("ser", "man", "m", "j")[0] != C("eg_election_manifest_to_json", x)[0].hex(): s.bad("eg_internal_manifest_new changed its input")
        see_internal(s, i, m)
    for k in m["contests"]:
        ph = e.placeholders(k)[:rng.randrange(3)]
        mk_contest(s, k, ph)


def spoil(rng, m):
    k = rng.choice(m["contests"])
    r = rng.randrange(4)
    if r == 0: k["district"] = "nowhere"
    elif r == 1: k["sels"][0]["cand"] = ""
    elif r == 2: m["styles"][0]["gpus"] = ["nowhere"]
    else: m["candidates"][0]["party"] = "no party"
    if m["candidates"][0].get("ctor") in (0, 2) and r == 3: m["candidates"][0]["ctor"] = 4


def see_internal(s, i, m):
    C, n = s.C, "eg_internal_manifest_"
    s.eq(n + "get_manifest_hash", s.qv(C(n + "get_manifest_hash", i)), s.qh(e.h_manifest(m)))
    s.eq(n + "get_geopolitical_units_size", C(n + "get_geopolitical_units_size", i), len(m["gpus"]))
    for j, y in enumerate(m["gpus"]): see_gp(s, C(n + "get_geopolitical_unit_at_index", i, j), y)
    s.refused(n + "get_geopolitical_unit_at_index", i, len(m["gpus"]))
    s.eq(n + "get_contests_size", C(n + "get_contests_size", i), len(m["contests"]))
    for j, y in enumerate(m["contests"]): see_placeholders(s, C(n + "get_contest_at_index", i, j), y, e.placeholders(y))
    s.refused(n + "get_contest_at_index", i, len(m["contests"]))
    s.eq(n + "get_ballot_styles_size", C(n + "get_ballot_styles_size", i), len(m["styles"]))
    for j, y in enumerate(m["styles"]):
        see_style(s, C(n + "get_ballot_style_at_index", i, j), y)
        see_style(s, C(n + "get_ballot_style", i, y["id"]), y)
    s.refused(n + "get_ballot_style_at_index", i, len(m["styles"]))
    rv, res = C.raw(n + "get_ballot_style", i, "no such style")      # as in C++: no such style is no pointer
    s.eq(n + "get_ballot_style of an unknown style", rv != 0 or res[0] is None, True)


# ---- contexts --------------------------------------------------------------------------------------------
def context(s, m, K, name="c", way=None):
    C, rng, d, n = s.C, s.rng, s.d, "eg_ciphertext_election_context_"
    N, k, commit, mh = rng.randint(1, 9), rng.randint(1, 9), rng.randrange(Q), s.qh(e.h_manifest(m))
    way = rng.randrange(6) if way is None else way
    data = {e.word(rng) + str(i): nn(e.txt(rng)) for i in range(rng.randrange(1, 4))}
    cfg = (rng.random() < .5, rng.randrange(2**40))
    a = [N, k, s.p(K), s.q(commit), s.q(mh)]
    hx = [N, k, "%01024X" % K, "%064X" % commit, "%064X" % mh]
    lst = None
    if way in (2, 3, 5):
        lst = C("eg_linked_list_new")
        for kv in data.items(): C("eg_linked_list_append", lst, *kv)
    cf = None
    if way in (1, 3):
        cf = C(n + "config_make", *cfg)
        s.eq(n + "config_get_allowed_overvotes", C(n + "config_get_allowed_overvotes", cf), cfg[0])
        s.eq(n + "config_get_max_ballots", C(n + "config_get_max_ballots", cf), cfg[1])
    x = [lambda: C(n + "make", *a), lambda: C(n + "make_with_configuration", *a, cf), lambda: C(n + "make_with_extended_data", *a, lst),
         lambda: C(n + "make_with_configuration_and_extended_data", *a, cf, lst), lambda: C(n + "make_from_hex", *hx),
         lambda: C(n + "make_from_hex_with_extended_data", *hx, lst)][way]()
    d.call("ctx_make", name, "e", str(N), str(k), "%x" % K, "%x" % commit, "%x" % mh, "%d:%d" % cfg if cf else "-",
           json.dumps(data if lst else None).encode())
    base, ext = e.context(mh, K, N, k, commit)

    def see(x):
        s.eq(n + "get_elgamal_public_key", s.pv(C(n + "get_elgamal_public_key", x)), K)
        s.eq(n + "get_commitment_hash", s.qv(C(n + "get_commitment_hash", x)), commit)
        s.eq(n + "get_manifest_hash", s.qv(C(n + "get_manifest_hash", x)), mh)
        s.eq(n + "get_crypto_base_hash", s.qv(C(n + "get_crypto_base_hash", x)), base)
        s.eq(n + "get_crypto_extended_base_hash", s.qv(C(n + "get_crypto_extended_base_hash", x)), ext)
        l = C(n + "get_extended_data", x)
        got = {}
        for i in range(C("eg_linked_list_get_count", l)):
            a, b = C("eg_linked_list_get_element_at", l, i)
            got[a.decode()] = b.decode()
        s.eq(n + "get_extended_data", got, data if lst else {})
        f = C(n + "get_configuration", x)
        if f is not None and cf:
            s.eq(n + "get_configuration", (C(n + "config_get_allowed_overvotes", f), C(n + "config_get_max_ballots", f)), cfg)
    see(x)
    if lst: s.eq("list given to the context", C("eg_linked_list_get_count", lst), len(data))
    if cf: s.eq("configuration given to the context", C(n + "config_get_max_ballots", cf), cfg[1])
    ctxdocs(s, x, name, see)
    for i in (2, 3, 4):
        h = list(hx)
        h[i] = rng.choice(["zz", "", "F" * 1026, "%X" % (P if i == 2 else Q)])
        try: d.call("ctx_make", "zz", "h", str(N), str(k), *h[2:5], "-", b"null")
        except c.LibEx: s.refused(n + "make_from_hex", *h)
    return x, ext


def ctxdocs(s, x, name, see):
    C, d, n = s.C, s.d, "eg_ciphertext_election_context_"
    for f in ("json", "bson"):
        got, size = C(n + "to_" + f, x)
        want = bytes.fromhex(d.call("ser", "ctx", name, f[0])[0])
        s.eq(n + "to_" + f, json.loads(got) if f == "json" else len(got), json.loads(want) if f == "json" else len(want))
        s.eq(n + "to_" + f + " size", size, len(got) + (f == "json"))
        see(C(n + "from_" + f, got))
        s.refused(n + "from_" + f, got[:len(got) // 2])
        s.refused(n + "from_" + f, b"{}" if f == "json" else b"\5\0\0\0\0")


def contexts(s):
    m = cmanifest(s.rng, maxc=1, maxs=1)
    for w in s.rng.sample(range(6), 3): context(s, m, o.powm(o.G, s.rng.randrange(2, Q)), way=w)
    C, rng, n = s.C, s.rng, "eg_encryption_device_"
    dev = (rng.getrandbits(64), rng.getrandbits(48), rng.getrandbits(20), nn(e.txt(rng)))
    x = C(n + "new", *dev)
    s.d.call("dev_make", "d", *[str(v) for v in dev[:3]], dev[3].encode())
    s.eq(n + "get_hash", s.qv(C(n + "get_hash", x)), H(*dev))
    got, size = C(n + "to_json", x)
    s.eq(n + "to_json", got, bytes.fromhex(s.d.call("ser", "dev", "d", "j")[0]))
    s.eq(n + "to_json size", size, len(got) + 1)
    s.eq(n + "from_json", s.qv(C(n + "get_hash", C(n + "from_json", got))), H(*dev))
    for b in (b"{}", b"", got[:-2], b"[1]"): s.refused(n + "from_json", b)
    ed = nn(e.txt(rng))
    y = C("eg_extended_data_new", ed, 17)
    s.eq("eg_extended_data_get_value", s.txt("eg_extended_data_get_value", y), ed)
    s.eq("eg_extended_data_get_length", C("eg_extended_data_get_length", y), 17)


# ---- ballots ---------------------------------------------------------------------------------------------
def mk_plain_sel(s, x):
    C, n = s.C, "eg_plaintext_ballot_selection_"
    if x.get("writein") or s.rng.random() < .3: h = C(n + "new_with_write_in", x["id"], x["vote"], x.get("ph", False), x.get("writein", ""))
    else: h = C(n + "new", x["id"], x["vote"], x.get("ph", False))
    see_plain_sel(s, h, x)
    for i in (x["id"], x["id"] + "x"):
        s.eq(n + "is_valid", C(n + "is_valid", h, i), s.d.call("ps_valid", json.dumps(x).encode(), i.encode())[0] == "1")
    return h


def see_plain_sel(s, h, x):
    C, n = s.C, "eg_plaintext_ballot_selection_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", h), x["id"])
    s.eq(n + "get_vote", C(n + "get_vote", h), x["vote"])
    s.eq(n + "get_is_placeholder", C(n + "get_is_placeholder", h), x.get("ph", False))
    s.eq(n + "get_write_in", s.txt(n + "get_write_in", h), x.get("writein", ""))


def see_plain_contest(s, h, k):
    C, n = s.C, "eg_plaintext_ballot_contest_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", h), k["id"])
    s.eq(n + "get_selections_size", C(n + "get_selections_size", h), len(k["sels"]))
    for i, x in enumerate(k["sels"]): see_plain_sel(s, C(n + "get_selection_at_index", h, i), x)
    s.refused(n + "get_selection_at_index", h, len(k["sels"]))


def mk_plain_contest(s, k):
    C, n = s.C, "eg_plaintext_ballot_contest_"
    h = C(n + "new", k["id"], [mk_plain_sel(s, x) for x in k["sels"]])
    see_plain_contest(s, h, k)
    for _ in range(4):
        a = (s.rng.choice([k["id"], k["id"], k["id"], "other"]), s.rng.randrange(5), s.rng.randrange(4), s.rng.randrange(4))
        try:
            want = s.d.call("pc_valid", json.dumps(k).encode(), a[0].encode(), *[str(v) for v in a[1:]], "0")[0] == "0"
        except c.LibEx:
            continue
        s.eq(n + "is_valid%s of %s" % (a, json.dumps(k)), C(n + "is_valid", h, *a), want)
    return h


def mk_plain(s, b):
    C, n = s.C, "eg_plaintext_ballot_"
    h = C(n + "new", b["id"], b["style"], [mk_plain_contest(s, k) for k in b["contests"]])
    see_plain(s, h, b)
    return h


def see_plain(s, h, b):
    C, n = s.C, "eg_plaintext_ballot_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", h), b["id"])
    s.eq(n + "get_style_id", s.txt(n + "get_style_id", h), b["style"])
    s.eq(n + "get_contests_size", C(n + "get_contests_size", h), len(b["contests"]))
    for i, k in enumerate(b["contests"]): see_plain_contest(s, C(n + "get_contest_at_index", h, i), k)
    s.refused(n + "get_contest_at_index", h, len(b["contests"]))


def refq(s, fn, h, want):
    """a borrowed element that may be absent"""
    x = s.C(fn, h)
    s.eq(fn, None if x is None else s.qv(x), None if want is None else I(want))


def see_csel(s, h, w):
    C, n = s.C, "eg_ciphertext_ballot_selection_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", h), w["id"])
    s.eq(n + "get_sequence_order", C(n + "get_sequence_order", h), w["seq"])
    s.eq(n + "get_is_placeholder", C(n + "get_is_placeholder", h), w["ph"])
    refq(s, n + "get_description_hash", h, w["dh"])
    refq(s, n + "get_crypto_hash", h, w["hash"])
    refq(s, n + "get_nonce", h, w["nonce"])
    ct = C(n + "get_ciphertext", h)
    s.eq(n + "get_ciphertext", [s.pv(C("eg_elgamal_ciphertext_get_pad", ct)), s.pv(C("eg_elgamal_ciphertext_get_data", ct))], [I(w["pad"]), I(w["data"])])
    if w["proof"]: s.eq(n + "get_proof", dproof(s, C(n + "get_proof", h)), [I(v) for v in w["proof"]])
    seed = s.rng.randrange(Q)
    s.eq(n + "crypto_hash_with", s.qv(C(n + "crypto_hash_with", h, s.q(seed))), H(w["id"], QE(seed), QE(H(PE(I(w["pad"])), PE(I(w["data"]))))))


def see_ccont(s, h, w, sels=True):
    C, n = s.C, "eg_ciphertext_ballot_contest_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", h), w["id"])
    s.eq(n + "get_sequence_order", C(n + "get_sequence_order", h), w["seq"])
    refq(s, n + "get_description_hash", h, w["dh"])
    refq(s, n + "get_crypto_hash", h, w["hash"])
    refq(s, n + "get_nonce", h, w["nonce"])
    pair = lambda ct: [s.pv(C("eg_elgamal_ciphertext_get_pad", ct)), s.pv(C("eg_elgamal_ciphertext_get_data", ct))]
    s.eq(n + "get_ciphertext_accumulation", pair(C(n + "get_ciphertext_accumulation", h)), [I(v) for v in w["acc"]])
    s.eq(n + "elgamal_accumulate", pair(C(n + "elgamal_accumulate", h)), [I(v) for v in w["acc"]])
    if w["proof"]: s.eq(n + "get_proof", cproof(s, C(n + "get_proof", h)), [I(v) for v in w["proof"][:4]])
    if all(x["nonce"] and I(x["nonce"]) for x in w["sels"]):
        s.eq(n + "aggregate_nonce", s.qv(C(n + "aggregate_nonce", h)), sum(I(x["nonce"]) for x in w["sels"]) % Q)
    seed = s.rng.randrange(Q)
    hs = [QE(I(x["hash"])) for x in sorted(w["sels"], key=lambda x: x["seq"])]
    s.eq(n + "crypto_hash_with", s.qv(C(n + "crypto_hash_with", h, s.q(seed))), H(w["id"], QE(seed), *hs))
    s.eq(n + "get_selections_size", C(n + "get_selections_size", h), len(w["sels"]))
    for i, x in enumerate(w["sels"]): see_csel(s, C(n + "get_selection_at_index", h, i), x)
    s.refused(n + "get_selection_at_index", h, len(w["sels"]))


def see_cballot(s, h, w):
    C, n = s.C, "eg_ciphertext_ballot_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", h), w["id"])
    s.eq(n + "get_style_id", s.txt(n + "get_style_id", h), w["style"])
    for g, k in (("manifest_hash", "mh"), ("ballot_code_seed", "seed"), ("ballot_code", "code"), ("crypto_hash", "hash"), ("nonce", "nonce")):
        refq(s, n + "get_" + g, h, w[k])
    s.eq(n + "get_timestamp", C(n + "get_timestamp", h), w["ts"])
    s.eq(n + "get_contests_size", C(n + "get_contests_size", h), len(w["contests"]))
    for i, k in enumerate(w["contests"]): see_ccont(s, C(n + "get_contest_at_index", h, i), k)
    s.refused(n + "get_contest_at_index", h, len(w["contests"]))
    mh = s.rng.randrange(Q)
    s.eq(n + "crypto_hash_with", s.qv(C(n + "crypto_hash_with", h, s.q(mh))), e.h_cballot(w, mh))


def dumped(s, kind, prefix, h, fmt="json", nonces=False):
    """the C++ view of what the handle serialises to"""
    doc, _ = s.C(prefix + "to_" + fmt + ("_with_nonces" if nonces else ""), h)
    s.d.call("load", kind, "back", fmt[0], doc)
    return json.loads(bytes.fromhex(s.d.call("dump", kind, "back")[0]))


def core(w):
    """what does not depend on the randomness of the selection proofs and the clock"""
    return dict(id=w["id"], style=w["style"], mh=w["mh"], seed=w["seed"], nonce=w["nonce"], hash=w["hash"],
                contests=[dict(k, sels=[{a: v for a, v in x.items() if a != "proof"} for x in k["sels"]]) for k in w["contests"]])


def elections(s, pre=False):
    C, rng, d = s.C, s.rng, s.d
    m = cmanifest(rng, maxc=2, maxs=2, in_order=True)
    mh = s.qh(e.h_manifest(m))
    d.call("man_build", "m", json.dumps(m).encode())
    d.call("int_make", "i", "m")
    man = c_manifest(s, m)
    im = C("eg_internal_manifest_new", man)
    key = e.Keys(rng)
    ctx, ext = context(s, m, key.K)
    b = e.ballot(rng, m)
    b = json.loads(json.dumps(b).replace("\\u0000", "0"))
    d.call("pb_build", "b", json.dumps(b).encode())
    pb = mk_plain(s, b)
    docs(s, "pb", "eg_plaintext_ballot_", pb, None, "b")
    exp = e.expect(m, b)
    if any(x["refuse"] for x in exp): return
    Kh, eh = s.p(key.K), s.q(ext)
    # one selection and one contest
    x = rng.choice(exp)
    k = x["contest"]
    j = rng.randrange(x["nreal"])
    ds, vote, ns = x["sels"][j], rng.randrange(2), rng.randrange(Q)
    spec = dict(id=ds["id"], vote=vote, writein="")
    desc = mk_sel(s, ds)
    ph, ver = rng.random() < .5, rng.random() < .5
    es = C("eg_encrypt_selection", mk_plain_sel(s, spec), desc, Kh, eh, s.q(ns), ph, ver)
    w = json.loads(bytes.fromhex(d.call("enc_sel", json.dumps(spec).encode(), ds["id"].encode(), ds["cand"].encode(), str(ds["seq"]), key.K, ext, ns, ph, False)[0]))
    n = "eg_ciphertext_ballot_selection_"
    w["proof"] = None
    see_csel(s, es, w)
    see_sel(s, desc, ds)
    isv = n + "is_valid_encryption"
    s.eq(isv, C(isv, es, s.q(I(w["dh"])), Kh, eh), True)
    s.eq(isv + " other description", C(isv, es, s.q((I(w["dh"]) + 1) % Q), Kh, eh), False)
    s.eq(isv + " other context", C(isv, es, s.q(I(w["dh"])), Kh, s.q((ext + 1) % Q)), False)
    s.refused("eg_encrypt_selection", mk_plain_sel(s, dict(spec, vote=2)), desc, Kh, eh, s.q(ns), ph, ver)
    given = next((y for y in b["contests"] if y["id"] == k["id"]), dict(id=k["id"], sels=[]))
    idx = [y["id"] for y in sorted(m["contests"], key=lambda y: y["seq"])].index(k["id"])
    cdesc = C("eg_internal_manifest_get_contest_at_index", im, idx)
    args = (im, cdesc, Kh, eh, s.q(ns), ver)
    try:
        w = json.loads(bytes.fromhex(d.call("enc_contest", json.dumps(given).encode(), "i", k["id"].encode(), key.K, ext, ns, False)[0]))
    except c.LibEx:
        s.refused("eg_encrypt_contest", mk_plain_contest(s, given), *args)
    else:
        ec = C("eg_encrypt_contest", mk_plain_contest(s, given), *args)
        for y in w["sels"]: y["proof"] = None
        see_ccont(s, ec, w)
        isv = "eg_ciphertext_ballot_contest_is_valid_encryption"
        s.eq(isv, C(isv, ec, s.q(I(w["dh"])), Kh, eh), True)
        s.eq(isv + " other key", C(isv, ec, s.q(I(w["dh"])), s.p(key.K * o.G % P), eh), False)
    s.refused("eg_encrypt_contest", mk_plain_contest(s, dict(given, id="other")), im, cdesc, Kh, eh, s.q(ns), ver)
    # ballots
    seed, nonce = rng.randrange(1, Q), rng.randrange(1, Q)
    sh, nh = s.q(seed), s.q(nonce)
    ver = rng.random() < .3
    cb = C("eg_encrypt_ballot_with_nonce", pb, im, ctx, sh, nh, ver)
    got = dumped(s, "cb", "eg_ciphertext_ballot_", cb, nonces=True)
    d.call("enc_ballot", "x", "b", "i", "c", seed, nonce, str(got["ts"]), False)
    want = json.loads(bytes.fromhex(d.call("dump", "cb", "x")[0]))
    s.eq("eg_encrypt_ballot_with_nonce", core(got), core(want))
    s.eq("eg_encrypt_ballot_with_nonce ballot code", I(got["code"]), H(QE(seed), got["ts"], QE(I(got["hash"]))))
    see_cballot(s, cb, got)
    isv = "eg_ciphertext_ballot_is_valid_encryption"
    s.eq(isv, C(isv, cb, s.q(mh), Kh, eh), True)
    s.eq(isv + " other manifest", C(isv, cb, s.q((mh + 1) % Q), Kh, eh), False)
    s.eq(isv + " other key", C(isv, cb, s.q(mh), s.p(key.K * o.G % P), eh), False)
    doc, _ = C("eg_ciphertext_ballot_to_json_with_nonces", cb)
    d.call("load", "cb", "x", "j", doc)
    docs(s, "cb", "eg_ciphertext_ballot_", cb, None, "x", nonces=True)
    docs(s, "cb", "eg_ciphertext_ballot_", cb, None, "x")
    for st in (1, 2, 999):
        sb = C("eg_submitted_ballot_from", cb, st)
        s.eq("eg_submitted_ballot_get_state", C("eg_submitted_ballot_get_state", sb), st)
    d.call("sb_from", "sb", "x", "999")
    docs(s, "sb", "eg_submitted_ballot_", sb, None, "sb")
    see_cballot(s, cb, got)                       # the input of the conversion is intact
    # fresh nonces
    c2 = C("eg_encrypt_ballot", pb, im, ctx, sh, False)
    g2 = dumped(s, "cb", "eg_ciphertext_ballot_", c2, rng.choice(["json", "bson", "msgpack"]), nonces=True)
    ss = type("S", (), dict(s=key.s, ext=ext))
    e.judge_votes(ss, g2["contests"], exp, lambda t: s.bad("eg_encrypt_ballot: " + t))
    s.obs.unique("nonces of eg_encrypt_ballot", g2["nonce"])
    # compact
    cc = C("eg_encrypt_compact_ballot_with_nonce", pb, im, ctx, sh, nh, False)
    see_compact(s, cc, b, got, seed, exp, ss, nonce)
    see_compact(s, C("eg_encrypt_compact_ballot", pb, im, ctx, sh, rng.random() < .2), b, got, seed, exp, ss, None)
    # mediator
    dev = (rng.getrandbits(48), rng.getrandbits(32), rng.getrandbits(20), "here")
    dh = C("eg_encryption_device_new", *dev)
    med = C("eg_encryption_mediator_new", im, ctx, dh)
    prev = H(*dev)
    for i, fn in enumerate(rng.sample(["encrypt_ballot", "encrypt_ballot_verify_proofs", "compact_encrypt_ballot", "compact_encrypt_ballot_verify_proofs"], 3)):
        x = C("eg_encryption_mediator_" + fn, med, pb)
        if fn.startswith("compact"):
            w = see_compact(s, x, b, got, prev, exp, ss, None)
        else:
            w = dumped(s, "cb", "eg_ciphertext_ballot_", x, nonces=True)
            e.judge_votes(ss, w["contests"], exp, lambda t: s.bad("eg_encryption_mediator_%s: %s" % (fn, t)))
            s.eq("eg_encryption_mediator_%s code" % fn, I(w["code"]), H(QE(prev), w["ts"], QE(I(w["hash"]))))
        s.eq("eg_encryption_mediator_%s seed" % fn, I(w["seed"]), prev)
        prev = I(w["code"])
    # refusals
    other = mk_plain(s, dict(b, style="no such style"))
    s.refused("eg_encryption_mediator_encrypt_ballot", med, other)
    s.refused("eg_encrypt_ballot", other, im, ctx, sh, False)
    s.refused("eg_encrypt_ballot_with_nonce", other, im, ctx, sh, nh, False)
    s.refused("eg_encrypt_compact_ballot", other, im, ctx, sh, False)
    s.refused("eg_encrypt_compact_ballot_with_nonce", other, im, ctx, sh, nh, False)
    s.refused("eg_encryption_mediator_compact_encrypt_ballot", med, other)
    s.refused("eg_encryption_mediator_compact_encrypt_ballot_verify_proofs", med, other)
    s.refused("eg_encryption_mediator_encrypt_ballot_verify_proofs", med, other)
    # the verifying functions verify: under a key outside the subgroup nothing they make is correct, and they say so
    while True:
        bk = rng.randrange(2, P - 1)
        if powm(bk, Q) != 1: break
    bad, _ = context(s, m, bk, "cbad", 0)
    bh = s.p(bk)
    med2 = C("eg_encryption_mediator_new", im, bad, dh)
    s.refused("eg_encryption_mediator_encrypt_ballot_verify_proofs", med2, pb)
    s.refused("eg_encryption_mediator_compact_encrypt_ballot_verify_proofs", med2, pb)
    s.refused("eg_encrypt_ballot", pb, im, bad, sh, True)
    s.refused("eg_encrypt_ballot_with_nonce", pb, im, bad, sh, nh, True)
    s.refused("eg_encrypt_compact_ballot", pb, im, bad, sh, True)
    s.refused("eg_encrypt_compact_ballot_with_nonce", pb, im, bad, sh, nh, True)
    s.refused("eg_encrypt_selection", mk_plain_sel(s, spec), desc, bh, eh, s.q(ns), ph, True)
    if not any(y["refuse"] for y in exp): s.refused("eg_encrypt_contest", mk_plain_contest(s, given), im, cdesc, bh, eh, s.q(ns), True)
    which = rng.randrange(7)
    if which == 0: C("eg_encryption_mediator_encrypt_ballot", med2, pb)
    elif which == 1: C("eg_encryption_mediator_compact_encrypt_ballot", med2, pb)
    elif which == 2: C("eg_encrypt_ballot", pb, im, bad, sh, False)
    elif which == 3: C("eg_encrypt_ballot_with_nonce", pb, im, bad, sh, nh, False)
    elif which == 4: C("eg_encrypt_compact_ballot", pb, im, bad, sh, False)
    elif which == 5: C("eg_encrypt_compact_ballot_with_nonce", pb, im, bad, sh, nh, False)
    else: C("eg_encrypt_selection", mk_plain_sel(s, spec), desc, bh, eh, s.q(ns), ph, False)
    see_plain(s, pb, b)
    see_manifest(s, man, m)
    see_internal(s, im, m)
    # precomputed values
    if pre:
        C("eg_precompute_init", 2)
        C("eg_precompute_populate", Kh)
        n0, cap = C("eg_precompute_status")
        s.eq("eg_precompute_status", (n0, cap), (2, 2))
        C("eg_precompute_stop")
        x = C("eg_encrypt_ballot", pb, im, ctx, sh, False)
        w = dumped(s, "cb", "eg_ciphertext_ballot_", x, nonces=True)
        e.judge_votes(ss, w["contests"], exp, lambda t: s.bad("eg_encrypt_ballot with precomputed values: " + t))
        n1, _ = C("eg_precompute_status")
        s.eq("eg_precompute_status after use", n1, 0)


def see_compact(s, cc, b, full, seed, exp, ss, nonce):
    C, d, n = s.C, s.d, "eg_compact_ciphertext_ballot_"
    s.eq(n + "get_object_id", s.txt(n + "get_object_id", cc), b["id"])
    doc, size = C(n + "to_msgpack", cc)
    s.eq(n + "to_msgpack size", size, len(doc))
    d.call("load", "cc", "cc", "m", doc)
    w = json.loads(bytes.fromhex(d.call("dump", "cc", "cc")[0]))
    s.eq(n + "seed", I(w["seed"]), seed)
    if nonce is not None: s.eq(n + "nonce", I(w["nonce"]), nonce)
    else: s.obs.unique("nonces of compact ballots", w["nonce"])
    d.call("cc_expand", "ex", "cc", "i", "c")
    x = json.loads(bytes.fromhex(d.call("dump", "cb", "ex")[0]))
    e.judge_votes(ss, x["contests"], exp, lambda t: s.bad(n + "expanded: " + t))
    s.eq(n + "code", I(w["code"]), H(QE(seed), w["ts"], QE(I(x["hash"]))))
    h = C(n + "from_msgpack", doc)
    s.eq(n + "from_msgpack", C(n + "to_msgpack", h)[0], doc)
    for bad in (b"", doc[:len(doc) // 2], b"\xc0"): s.refused(n + "from_msgpack", bad)
    # the plaintext part alone
    d.call("cp_make", "cp", "b")
    p = bytes.fromhex(d.call("ser", "cp", "cp", "m")[0])
    h = C("eg_compact_plaintext_ballot_from_msgpack", p)
    s.eq("eg_compact_plaintext_ballot_to_msgpack", C("eg_compact_plaintext_ballot_to_msgpack", h)[0], p)
    for bad in (b"", p[:len(p) // 2], b"\xc0"): s.refused("eg_compact_plaintext_ballot_from_msgpack", bad)
    return w


def nulls(s):
    """freeing nothing is reported; a missing argument that is checked is reported"""
    C = s.C
    for fn, (r, ps) in capi.SIGS.items():
        if fn.endswith("_free") or fn in ("eg_free_int_ptr", "eg_delete_int_ptr"):
            a = [None]
            if len(ps) != 1: continue
            ret = capi.RET[r]
            rv = int(s.d.call("ccall", fn, ret, "N")[0])
            C.called[fn] = C.called.get(fn, 0) + 1
            if fn == "eg_linked_list_free": continue
            s.eq(fn + "(NULL)", rv != 0, True)


PARTS = [("group", group, 3), ("hashes", hashes, 3), ("encryption", encryption, 2), ("lists", lists, 4), ("manifests", manifests, 4),
         ("contexts", contexts, 3), ("elections", elections, 3), ("nulls", nulls, 1)]


def shard(obs, rng, i, n, exe, rounds):
    d = c.Drv(exe, env=dict(ASAN_OPTIONS=c.LEAKS), timeout=300)
    called = {}
    for r in range(rounds):
        for name, fn, reps in PARTS:
            for rep in range(reps):
                if obs.full(): break
                s = Ses(obs, rng, d)
                a = (r == rounds - 1 and rep == reps - 1,) if name == "elections" else ()
                try:
                    fn(s, *a)
                    s.end()
                except (capi.Status, capi.Exc) as ex:
                    s.bad(str(ex))
                    d.restart()
                except c.LibEx as ex:
                    s.bad("C++ operation refused what the C one accepted: %s" % ex, sig="reference")
                    d.restart()
                except c.Died as ex:
                    s.bad("%s" % ex)
                    d.restart()
                except RuntimeError as ex:
                    if "no function" in str(ex): s.bad(str(ex) + " in the library", sig="missing function")
                    else: raise
                    d.restart()
                for k, v in s.C.called.items(): called[k] = called.get(k, 0) + v
    d.close()
    obs.data["called"] = list(called.items())


def run(chk):
    exe = c.egcapi("asan")
    chk.shards(shard, exe, chk.scale(2, 12))
    tot = {}
    for k, v in chk.obs.data.pop("called", []): tot[k] = tot.get(k, 0) + v
    missing = sorted(set(capi.SIGS) - set(tot))
    chk.extra["C functions declared"] = len(capi.SIGS)
    chk.extra["C functions called"] = len(tot)
    chk.extra["C functions not called"] = missing
    chk.extra["calls"] = sum(tot.values())
