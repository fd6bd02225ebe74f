#include "rpc.hpp"
#include "electionguard/nonces.hpp"
using namespace rpc;

namespace
{
    struct TestHashable : CryptoHashable {
        unique_ptr<ElementModQ> q;
        explicit TestHashable(const string &h) : q(makeQ(h)) {}
        unique_ptr<ElementModQ> crypto_hash() override { return q->clone(); }
        unique_ptr<ElementModQ> crypto_hash() const override { return q->clone(); }
    };
    struct Store {
        vector<unique_ptr<ElementModP>> p;
        vector<unique_ptr<ElementModQ>> q;
        vector<unique_ptr<TestHashable>> h;
        ElementModP *P(const string &s) { p.push_back(makeP(s)); return p.back().get(); }
        ElementModQ *Q(const string &s) { q.push_back(makeQ(s)); return q.back().get(); }
        CryptoHashable *H(const string &s) { h.push_back(std::make_unique<TestHashable>(s)); return h.back().get(); }
    };
    vector<string> items(const string &s)
    {
        if (s.empty()) return {};
        return split(s, ',');
    }
    using std::reference_wrapper;
    template <class T, class F> CryptoHashableType vec(const vector<string> &l, char mode, F mk)
    {
        if (mode == 'p') { vector<T *> v; for (auto &s : l) v.push_back(mk(s)); return v; }
        if (mode == 'r') { vector<reference_wrapper<T>> v; for (auto &s : l) v.push_back(*mk(s)); return v; }
        vector<reference_wrapper<const T>> v;
        for (auto &s : l) v.push_back(*mk(s));
        return v;
    }
    template <class T> CryptoHashableType one(T *p, char mode)
    {
        if (mode == 'p') return p;
        if (mode == 'r') return reference_wrapper<T>(*p);
        return reference_wrapper<const T>(*p);
    }
    // token: N | P<mode>:hex | Q.. | H.. | U:dec | S:hex | B:hex | VP<mode>:hex,.. | VQ | VH | VU | VS
    CryptoHashableType elem(Store &st, const string &t)
    {
        auto c = t.find(':');
        string tag = t.substr(0, c), val = c == string::npos ? "" : t.substr(c + 1);
        char mode = tag.back();
        if (tag == "N") return nullptr;
        if (tag == "U") return (uint64_t)std::stoull(val);
        if (tag == "S") return unhex(val);
        if (tag == "B") { auto s = unhex(val); return vector<uint8_t>(s.begin(), s.end()); }
        if (tag == "VU") { vector<uint64_t> v; for (auto &s : items(val)) v.push_back(std::stoull(s)); return v; }
        if (tag == "VS") { vector<string> v; for (auto &s : items(val)) v.push_back(s == "-" ? "" : unhex(s)); return v; }
        if (tag[0] == 'P') return one<ElementModP>(st.P(val), mode);
        if (tag[0] == 'Q') return one<ElementModQ>(st.Q(val), mode);
        if (tag[0] == 'H') return one<CryptoHashable>(st.H(val), mode);
        if (tag[0] == 'V' && tag[1] == 'P') return vec<ElementModP>(items(val), mode, [&](const string &s) { return st.P(s); });
        if (tag[0] == 'V' && tag[1] == 'Q') return vec<ElementModQ>(items(val), mode, [&](const string &s) { return st.Q(s); });
        if (tag[0] == 'V' && tag[1] == 'H') return vec<CryptoHashable>(items(val), mode, [&](const string &s) { return st.H(s); });
        throw BadCall("bad hash token " + t);
    }
} // namespace

CMD("hash")
{
    Store st;
    vector<CryptoHashableType> v;
    while (a.more()) v.push_back(elem(st, a.next()));
    o.Q(*hash_elems(v));
} END;
CMD("hash1") { Store st; o.Q(*hash_elems(elem(st, a.next()))); } END;
// nonces seed hdr(- | P:hex | Q:hex | S:hex) ops...
CMD("nonces")
{
    auto seed = a.Q();
    string h = a.next();
    Store st;
    unique_ptr<Nonces> n;
    if (h == "-") n = std::make_unique<Nonces>(*seed);
    else if (h[0] == 'P') n = std::make_unique<Nonces>(*seed, NoncesHeaderType(st.P(h.substr(2))));
    else if (h[0] == 'Q') n = std::make_unique<Nonces>(*seed, NoncesHeaderType(st.Q(h.substr(2))));
    else n = std::make_unique<Nonces>(*seed, NoncesHeaderType(unhex(h.substr(2))));
    while (a.more()) {
        auto op = split(a.next(), ':');
        if (op[0] == "g") o.Q(*n->get(std::stoull(op[1])));
        else if (op[0] == "gh") o.Q(*n->get(std::stoull(op[1]), unhex(op[2])));
        else if (op[0] == "r") for (auto &x : n->get((uint64_t)std::stoull(op[1]), (uint64_t)std::stoull(op[2]))) o.Q(*x);
        else if (op[0] == "n") o.Q(*n->next());
        else throw BadCall("nonces op");
    }
} END;
CMD("hmac")
{
    auto k = a.bytes(), m = a.bytes();
    auto len = a.u64(), start = a.u64();
    o.bytes(get_hmac(k, m, (uint32_t)len, (uint32_t)start));
} END;

// ElGamal
CMD("keypair")
{
    auto s = a.Q();
    auto k = ElGamalKeyPair::fromSecret(*s);
    o.Q(k->getSecretKey()); o.P(k->getPublicKey());
} END;
CMD("enc")
{
    auto m = a.u64(); auto r = a.Q(); bool f = a.flag(); auto k = a.P(f);
    auto c = elgamalEncrypt(m, *r, *k);
    o.P(c->getPad()); o.P(c->getData());
} END;
CMD("enc_pre")
{
    auto m = a.u64(); auto g = a.P(), k = a.P();
    auto c = elgamalEncrypt_with_precomputed(m, *g, *k);
    o.P(c->getPad()); o.P(c->getData());
} END;
CMD("dec")
{
    auto p = a.P(), d = a.P(); auto s = a.Q();
    ElGamalCiphertext c(std::move(p), std::move(d));
    o.u64(c.decrypt(*s));
} END;
CMD("cadd")
{
    vector<unique_ptr<ElGamalCiphertext>> cs;
    vector<std::reference_wrapper<ElGamalCiphertext>> v;
    while (a.more()) { auto p = a.P(), d = a.P(); cs.push_back(std::make_unique<ElGamalCiphertext>(std::move(p), std::move(d))); }
    for (auto &c : cs) v.push_back(*c);
    auto c = elgamalAdd(v);
    o.P(c->getPad()); o.P(c->getData());
    for (auto &x : cs) { o.P(x->getPad()); o.P(x->getData()); }
} END;
CMD("chash")
{
    auto p = a.P(), d = a.P();
    ElGamalCiphertext c(std::move(p), std::move(d));
    const ElGamalCiphertext &cc = c;
    o.Q(*c.crypto_hash()); o.Q(*cc.crypto_hash());
} END;
CMD("ceq")
{
    auto p = a.P(), d = a.P(), p2 = a.P(), d2 = a.P();
    ElGamalCiphertext c(std::move(p), std::move(d)), e(std::move(p2), std::move(d2));
    o.flag(c == e); o.flag(c != e);
} END;

// hashed ElGamal: msg nonce key seed maxlen trunc
CMD("henc")
{
    auto m = a.bytes(); auto r = a.Q(); auto k = a.P(); auto s = a.Q();
    auto len = a.u64(); bool t = a.flag();
    auto c = hashedElgamalEncrypt(m, *r, *k, *s, (padded_data_size_t)len, t);
    o.P(c->getPad()); o.bytes(c->getData()); o.bytes(c->getMac()); o.Q(*c->crypto_hash());
} END;
// pad data mac secret seed pad?
CMD("hdec")
{
    auto p = a.P(); auto d = a.bytes(), m = a.bytes(); auto s = a.Q(), seed = a.Q();
    bool pad = a.flag();
    HashedElGamalCiphertext c(std::move(p), d, m);
    o.bytes(c.decrypt(*s, *seed, pad));
} END;
CMD("heq")
{
    auto p = a.P(); auto d = a.bytes(), m = a.bytes();
    auto p2 = a.P(); auto d2 = a.bytes(), m2 = a.bytes();
    HashedElGamalCiphertext c(std::move(p), d, m), e(std::move(p2), d2, m2);
    o.flag(c == e); o.flag(c != e);
} END;

// proofs
static void outD(Out &o, DisjunctiveChaumPedersenProof &p)
{
    o.P(p.getProofZeroPad()); o.P(p.getProofZeroData()); o.P(p.getProofOnePad()); o.P(p.getProofOneData());
    o.Q(p.getProofZeroChallenge()); o.Q(p.getProofOneChallenge()); o.Q(p.getChallenge());
    o.Q(p.getProofZeroResponse()); o.Q(p.getProofOneResponse());
}
static unique_ptr<DisjunctiveChaumPedersenProof> inD(Args &a)
{
    auto p1 = a.P(), p2 = a.P(), p3 = a.P(), p4 = a.P();
    auto q1 = a.Q(), q2 = a.Q(), q3 = a.Q(), q4 = a.Q(), q5 = a.Q();
    return std::make_unique<DisjunctiveChaumPedersenProof>(
      std::move(p1), std::move(p2), std::move(p3), std::move(p4), std::move(q1), std::move(q2),
      std::move(q3), std::move(q4), std::move(q5));
}
// dmake alpha beta r kfixed K qext seed|- plaintext
CMD("dmake")
{
    auto p = a.P(), d = a.P(); auto r = a.Q(); bool f = a.flag(); auto k = a.P(f); auto q = a.Q();
    string s = a.next(); auto m = a.u64();
    ElGamalCiphertext c(std::move(p), std::move(d));
    auto pr = s == "-" ? DisjunctiveChaumPedersenProof::make(c, *r, *k, *q, m)
                       : DisjunctiveChaumPedersenProof::make(c, *r, *k, *q, *makeQ(s), m);
    outD(o, *pr);
    o.flag(pr->isValid(c, *k, *q));
} END;
CMD("dvalid")
{
    auto p = a.P(), d = a.P(); bool f = a.flag(); auto k = a.P(f); auto q = a.Q();
    ElGamalCiphertext c(std::move(p), std::move(d));
    o.flag(inD(a)->isValid(c, *k, *q));
} END;
// dmake_pre K qext plaintext : own precomputed values
CMD("dmake_pre")
{
    auto k = a.P(); auto q = a.Q(); auto m = a.u64();
    auto t1 = std::make_unique<Triple>(*k), t2 = std::make_unique<Triple>(*k);
    auto qd = std::make_unique<Quadruple>(*k);
    auto gr = t1->get_g_to_exp(); auto kr = t1->get_pubkey_to_exp();
    auto c = elgamalEncrypt_with_precomputed(m, *gr, *kr);
    o.Q(*t1->get_exp()); o.P(c->getPad()); o.P(c->getData());
    auto tt = std::make_unique<TwoTriplesAndAQuadruple>(std::move(t1), std::move(t2), std::move(qd));
    auto pr = DisjunctiveChaumPedersenProof::make_with_precomputed(*c, std::move(tt), *q, m);
    outD(o, *pr);
    o.flag(pr->isValid(*c, *k, *q));
} END;
// cmake alpha beta r K seed qext constant
CMD("cmake")
{
    auto p = a.P(), d = a.P(); auto r = a.Q(); bool f = a.flag(); auto k = a.P(f);
    auto s = a.Q(), q = a.Q(); auto L = a.u64();
    ElGamalCiphertext c(std::move(p), std::move(d));
    auto pr = ConstantChaumPedersenProof::make(c, *r, *k, *s, *q, L);
    o.P(pr->getPad()); o.P(pr->getData()); o.Q(pr->getChallenge()); o.Q(pr->getResponse()); o.u64(pr->getConstant());
    o.flag(pr->isValid(c, *k, *q));
} END;
CMD("cvalid")
{
    auto p = a.P(), d = a.P(); bool f = a.flag(); auto k = a.P(f); auto q = a.Q();
    auto pp = a.P(), pd = a.P(); auto ch = a.Q(), re = a.Q(); auto L = a.u64();
    ElGamalCiphertext c(std::move(p), std::move(d));
    ConstantChaumPedersenProof pr(std::move(pp), std::move(pd), std::move(ch), std::move(re), L);
    o.flag(pr.isValid(c, *k, *q));
} END;
