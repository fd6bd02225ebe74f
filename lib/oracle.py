"""Independent reference for ElectionGuard 1.x arithmetic, hashing, encryption and proofs.

Written from the specification with Python integers, hashlib/hmac and libgmp's mpz_powm; it shares no
code with the library under test. Constants are derived, not copied: q = 2^256 - 189, p and g are
checked against their defining relations by C02.
"""
import ctypes, hashlib, hmac as _hmac, os

Q = 2**256 - 189
_here = os.path.dirname(os.path.abspath(__file__))
P = int(open(os.path.join(_here, "p.hex")).read().strip(), 16)
R = (P - 1) // Q
MAXQ = 2**256 - 1
MAXP = 2**4096 - 1

try:
    _gmp = ctypes.CDLL("libgmp.so.10")
except OSError:
    _gmp = None


class _mpz(ctypes.Structure):
    _fields_ = [("alloc", ctypes.c_int), ("size", ctypes.c_int), ("d", ctypes.c_void_p)]


if _gmp is not None:
    def _new():
        z = _mpz()
        _gmp.__gmpz_init(ctypes.byref(z))
        return z

    _b, _e, _m, _r = _new(), _new(), _new(), _new()
    _buf = ctypes.create_string_buffer(20000)
    _imp, _exp, _pw = _gmp.__gmpz_import, _gmp.__gmpz_export, _gmp.__gmpz_powm
    _imp.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_size_t, ctypes.c_int,
                     ctypes.c_size_t, ctypes.c_char_p]
    _exp.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_size_t), ctypes.c_int, ctypes.c_size_t,
                     ctypes.c_int, ctypes.c_size_t, ctypes.c_void_p]

    def _set(z, n):
        by = n.to_bytes((n.bit_length() + 7) // 8 or 1, "big")
        _imp(ctypes.byref(z), len(by), 1, 1, 1, 0, by)

    def powm(b, e, m=P):
        if e < 0:
            return pow(pow(b, -1, m), -e, m)
        _set(_b, b); _set(_e, e); _set(_m, m)
        _pw(ctypes.byref(_r), ctypes.byref(_b), ctypes.byref(_e), ctypes.byref(_m))
        cnt = ctypes.c_size_t()
        _exp(_buf, ctypes.byref(cnt), 1, 1, 1, 0, ctypes.byref(_r))
        return int.from_bytes(_buf.raw[:cnt.value], "big")
else:
    def powm(b, e, m=P):
        return pow(b, e, m)

G = powm(2, R)


class FixedBase:
    """8-bit windowed fixed-base exponentiation, for oracles that raise one base many times"""
    def __init__(self, base):
        self.t = []
        x = base % P
        for _ in range(32):
            row = [1]
            for _ in range(255):
                row.append(row[-1] * x % P)
            self.t.append(row)
            x = row[-1] * x % P

    def pow(self, e):
        r = 1
        for i in range(32):
            w = (e >> (8 * i)) & 255
            if w:
                r = r * self.t[i][w] % P
        return r


def hx(n):
    """the library's text form of an element: upper case, whole bytes, no leading zero bytes"""
    s = "%X" % n
    return s if len(s) % 2 == 0 else "0" + s


class PE(int):
    """an element mod p as a hash input"""


class QE(int):
    """an element mod q as a hash input"""


def bytes_hex(b):
    s = b.lstrip(b"\0").hex().upper()
    return s or "00"


def text(x):
    if x is None:
        return b"null"
    if isinstance(x, (PE, QE)):
        return hx(int(x)).encode()
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, int):
        return b"null" if x == 0 else str(x).encode()
    if isinstance(x, str):
        return x.encode() or b"null"
    if isinstance(x, bytes):
        return x or b"null"
    if isinstance(x, bytearray):          # a vector of bytes
        return bytes_hex(bytes(x)).encode()
    if isinstance(x, (list, tuple)):
        if not x:
            return b"null"
        return hx(H(*x)).encode()
    raise TypeError(type(x))


def H(*elems):
    s = hashlib.sha256()
    s.update(b"|")
    for e in (elems or (None,)):
        s.update(text(e))
        s.update(b"|")
    return int.from_bytes(s.digest(), "big") % Q


class Nonces:
    def __init__(self, seed, hdr=None, has=None):
        if has or hdr is not None:
            self.seed = H(QE(seed), hdr)
        else:
            self.seed = seed
        self.n = 0

    def get(self, i, hdr=None, has=False):
        self.n = (i + 1) % 2**64
        if has or hdr is not None:
            return H(QE(self.seed), i, hdr)
        return H(QE(self.seed), i)

    def next(self):
        return self.get(self.n)


def hm(key, msg):
    return _hmac.new(key, msg, hashlib.sha256).digest()


def eg_hmac(key, msg, length, start):
    if length > 0:
        msg = start.to_bytes(4, "little") + msg + length.to_bytes(4, "little")
    return hm(key, msg)


def qb(x):
    return x.to_bytes(32, "big")


def pb(x):
    return x.to_bytes(512, "big")


# ---- ElGamal -----------------------------------------------------------------------------------
def enc(m, r, K):
    return powm(G, r), powm(G, m) * powm(K, r) % P


def dec(pad, data, s, limit=100000):
    gm = data * powm(powm(pad, s), P - 2) % P
    x, m = 1, 0
    while m <= limit:
        if x == gm:
            return m
        x = x * G % P
        m += 1
    return None


def hashed_keys(alpha, beta, seed, nblocks):
    session = H(PE(alpha), PE(beta))
    bits = nblocks * 256
    mk = eg_hmac(qb(session), qb(seed), bits, 0)
    ks = b"".join(eg_hmac(qb(session), qb(seed), bits, i + 1) for i in range(nblocks))
    return mk, ks


def hashed_pad(msg, maxlen, trunc):
    """returns the padded block, or None when the library must refuse"""
    if maxlen == 0:
        if len(msg) % 32:
            return None
        return msg
    total = maxlen + 2
    if total % 32:
        return None
    if len(msg) > maxlen:
        if not trunc:
            return None
        return b"\0\0" + msg[:maxlen]
    padlen = maxlen - len(msg)
    return padlen.to_bytes(2, "big") + msg + b"\0" * padlen


def hashed_enc(block, r, K, seed):
    alpha, beta = powm(G, r), powm(K, r)
    n = len(block) // 32
    mk, ks = hashed_keys(alpha, beta, seed, n)
    data = bytes(x ^ y for x, y in zip(block, ks))
    return alpha, data, hm(mk, pb(alpha) + data)


# ---- proofs ------------------------------------------------------------------------------------
def inb_q(x):
    return 0 < x < Q


def inb_p(x):
    return 0 < x < P


def residue(x):
    return inb_p(x) and powm(x, Q) == 1


def disj_make(alpha, beta, r, K, qext, seed, m):
    n = Nonces(seed, "disjoint-chaum-pedersen-proof")
    first = n.get(0)
    second = n.get(1)
    third = n.get(2)
    return first, second, third


def disj_equations(alpha, beta, K, qext, pr):
    """every verification equation of the disjunctive proof, by name"""
    a0, b0, a1, b1, c0, c1, c, v0, v1 = pr
    return {
        "alpha residue": residue(alpha), "beta residue": residue(beta),
        "a0 residue": residue(a0), "b0 residue": residue(b0),
        "a1 residue": residue(a1), "b1 residue": residue(b1),
        "c0 bounds": inb_q(c0), "c1 bounds": inb_q(c1), "v0 bounds": inb_q(v0), "v1 bounds": inb_q(v1),
        "challenge sum": (c0 + c1) % Q == c,
        "challenge hash": c == H(QE(qext), PE(alpha), PE(beta), PE(a0), PE(b0), PE(a1), PE(b1)),
        "g^v0": powm(G, v0) == a0 * powm(alpha, c0) % P,
        "g^v1": powm(G, v1) == a1 * powm(alpha, c1) % P,
        "K^v0": powm(K, v0) == b0 * powm(beta, c0) % P,
        "g^c1 K^v1": powm(G, c1) * powm(K, v1) % P == b1 * powm(beta, c1) % P,
    }


def const_equations(alpha, beta, K, qext, pr):
    a, b, c, v, L = pr
    return {
        "alpha residue": residue(alpha), "beta residue": residue(beta),
        "a residue": residue(a), "b residue": residue(b),
        "c bounds": inb_q(c), "v bounds": inb_q(v),
        "challenge hash": c == H(QE(qext), PE(alpha), PE(beta), PE(a), PE(b)),
        "g^v": powm(G, v) == a * powm(alpha, c) % P,
        "g^cL K^v": powm(G, c * L % Q) * powm(K, v) % P == b * powm(beta, c) % P,
    }


def exposed(c, v, r, known):
    """how the commitment exponent behind response v = u + c r follows from published scalars (then r, and with it the vote,
    follows too), or None; nonces so small that such a relation holds anyway are not judged"""
    if min(r, Q - r) < 2**64:
        return None
    u = (v - c * r) % Q
    names = dict(known)
    names.setdefault("0", 0)
    names.setdefault("1", 1)
    l = list(names.items())
    for n1, x in l:
        for n2, y in l:
            if (x + y) % Q == u: return "%s + %s" % (n1, n2)
            if (x - y) % Q == u: return "%s - %s" % (n1, n2)
            if x * y % Q == u and u: return "%s * %s" % (n1, n2)
    if u == r: return "the nonce of the ciphertext itself"
    return None


def disj_exposed(pr, r, bit, **more):
    a0, b0, a1, b1, c0, c1, c, v0, v1 = pr
    return exposed((c0, c1)[bit], (v0, v1)[bit], r, dict(c0=c0, c1=c1, c=c, v0=v0, v1=v1, **more))


def const_exposed(pr, r, **more):
    return exposed(pr[2], pr[3], r, dict(c=pr[2], v=pr[3], L=pr[4], **more))
