// Histories of copies, clones, assignments, moves and destructions of every copyable type.
#include "objects.hpp"
#include "electionguard/precompute_buffers.hpp"
#include <algorithm>
using namespace obj;
using rpc::BadCall;
using std::make_unique;

namespace
{
    template <class T> using Ptr = unique_ptr<T>;
    enum { COPY = 1, CLONE = 2, MOVE = 4, MOVEASSIGN = 8, ASSIGN = 16 };

    string fnv(const string &s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        char b[20];
        snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
        return b;
    }
    // give the element another value through its public assignment
    void flipP(const ElementModP *e)
    {
        if (!e) return;
        vector<uint64_t> v(e->get(), e->get() + 64);
        v[1] ^= 5;
        ElementModP n(v, true);
        *const_cast<ElementModP *>(e) = n;
    }
    void flipQ(const ElementModQ *e)
    {
        if (!e) return;
        vector<uint64_t> v(e->get(), e->get() + 4);
        v[1] ^= 5;
        ElementModQ n(v, true);
        *const_cast<ElementModQ *>(e) = n;
    }

    template <class T, int CAN> struct History {
        std::function<Ptr<T>(const json &)> build;
        std::function<json(T &)> dump;
        std::function<void(T &)> change; // writes into the object's own storage
        void run(Args &a, Out &o)
        {
            Ptr<T> s[5];
            auto A = json::parse(a.blob()), B = json::parse(a.blob());
            bool full = a.flag();
            auto show = [&](T &t) { auto d = dumps(dump(t)); if (full) o.blob(d); else o.raw(fnv(d)); };
            s[0] = build(A);
            s[1] = build(B);
            show(*s[0]);
            show(*s[1]);
            while (a.more()) {
                auto f = rpc::split(a.next(), ':');
                int i = std::stoi(f[1]), j = f.size() > 2 ? std::stoi(f[2]) : -1;
                char op = f[0][0];
                if (op == 'c') { if constexpr ((CAN & COPY) != 0) s[j] = make_unique<T>(*s[i]); }
                else if (op == 'v') { // by value through a vector that grows
                    if constexpr ((CAN & COPY) != 0 && (CAN & MOVE) != 0) {
                        std::vector<T> v;
                        for (int k = 0; k < 5; k++) v.push_back(*s[i]);
                        s[j] = make_unique<T>(v[3]);
                    }
                }
                else if (op == 'l') { if constexpr ((CAN & CLONE) != 0) s[j] = s[i]->clone(); }
                else if (op == 'a') { if constexpr ((CAN & ASSIGN) != 0) *s[j] = *s[i]; }
                else if (op == 'm') { if constexpr ((CAN & MOVE) != 0) { auto n = make_unique<T>(std::move(*s[i])); s[i].reset(); s[j] = std::move(n); } }
                else if (op == 'M') { if constexpr ((CAN & MOVEASSIGN) != 0) { *s[j] = std::move(*s[i]); s[i].reset(); } }
                else if (op == 'd') s[i].reset();
                else if (op == 'x') { if (change) change(*s[i]); }
                else throw BadCall("op");
                string r;
                for (auto &p : s) {
                    if (!r.empty()) r += ",";
                    r += p ? (full ? dumps(dump(*p)) : fnv(dumps(dump(*p)))) : string("-");
                }
                if (full) o.blob(r); else o.raw(r);
            }
        }
    };
    template <class T, int CAN>
    void history(Args &a, Out &o, std::function<Ptr<T>(const json &)> b, std::function<json(T &)> d, std::function<void(T &)> x = nullptr)
    {
        History<T, CAN>{b, d, x}.run(a, o);
    }
    json jpair(const ElGamalCiphertext &c) { return {jp(c.getPad()), jp(c.getData()), jq(c.crypto_hash().get())}; }
    template <class F> json attempt(F f) { try { return f(); } catch (const std::exception &e) { return "refused"; } }
} // namespace

// copies kind A B full op...
CMD("copies")
{
    auto k = a.next();
    constexpr int C = COPY | ASSIGN;
    if (k == "p")
        history<ElementModP, C | CLONE>(a, o, [](const json &j) { return rpc::makeP(j[0].get<string>(), j[1].get<bool>()); },
            [](ElementModP &e) { return json{jp(&e), e.toHex().size() ? e.toHex() : "", e.isFixedBase(), e.isInBounds()}; }, [](ElementModP &e) { e.setIsFixedBase(!e.isFixedBase()); });
    else if (k == "q")
        history<ElementModQ, C | CLONE>(a, o, [](const json &j) { return rpc::makeQ(j[0].get<string>()); },
            [](ElementModQ &e) { return json{jq(&e), e.toHex(), e.isInBounds()}; }, [](ElementModQ &e) { flipQ(&e); });
    else if (k == "pair")
        history<ElGamalCiphertext, C | CLONE>(a, o, buildPair, [](ElGamalCiphertext &c) { return jpair(c); }, [](ElGamalCiphertext &c) { flipP(c.getData()); });
    else if (k == "hashed")
        history<HashedElGamalCiphertext, C | CLONE>(a, o, buildHashed, [](HashedElGamalCiphertext &c) { auto j = jhashed(c); j["hash"] = jq(c.crypto_hash().get()); return j; },
            [](HashedElGamalCiphertext &c) { flipP(c.getPad()); });
    else if (k == "key")
        history<ElGamalKeyPair, C>(a, o, [](const json &j) { return ElGamalKeyPair::fromSecret(*rpc::makeQ(j[0].get<string>()), j[1].get<bool>()); },
            [](ElGamalKeyPair &c) { return json{jq(c.getSecretKey()), jp(c.getPublicKey()), c.getPublicKey()->isFixedBase()}; }, [](ElGamalKeyPair &c) { flipQ(c.getSecretKey()); });
    else if (k == "disj")
        history<DisjunctiveChaumPedersenProof, C | CLONE>(a, o, buildDisj, [](DisjunctiveChaumPedersenProof &c) { return jproof(&c); },
            [](DisjunctiveChaumPedersenProof &c) { flipQ(c.getProofOneResponse()); });
    else if (k == "const")
        history<ConstantChaumPedersenProof, C>(a, o, buildConst, [](ConstantChaumPedersenProof &c) { return jconst(&c); },
            [](ConstantChaumPedersenProof &c) { flipQ(c.getResponse()); });
    else if (k == "ann")
        history<AnnotatedString, C | MOVE | MOVEASSIGN>(a, o, [](const json &j) { return make_unique<AnnotatedString>(j[0].get<string>(), j[1].get<string>()); },
            [](AnnotatedString &x) { return json{x.getAnnotation(), x.getValue(), jq(x.crypto_hash().get())}; });
    else if (k == "lang")
        history<Language, C | MOVE | MOVEASSIGN>(a, o, [](const json &j) { return make_unique<Language>(j[0].get<string>(), j[1].get<string>()); },
            [](Language &x) { return json{x.getValue(), x.getLanguage(), jq(x.crypto_hash().get())}; });
    else if (k == "text")
        history<InternationalizedText, C | MOVE>(a, o, buildText, [](InternationalizedText &x) { return json{jt(&x), jq(x.crypto_hash().get())}; });
    else if (k == "contact")
        history<ContactInformation, C | MOVE>(a, o, buildContact, [](ContactInformation &x) { return jc(&x); });
    else if (k == "gp")
        history<GeopoliticalUnit, C | MOVE>(a, o, buildGp, [](GeopoliticalUnit &x) { return jgp(x); });
    else if (k == "style")
        history<BallotStyle, C | MOVE>(a, o, buildStyle, [](BallotStyle &x) { return jstyle(x); });
    else if (k == "party")
        history<Party, C | MOVE>(a, o, buildParty, [](Party &x) { return jparty(x); });
    else if (k == "cand")
        history<Candidate, C | MOVE>(a, o, buildCand, [](Candidate &x) { return jcand(x); });
    else if (k == "seld")
        history<SelectionDescription, C | MOVE>(a, o, [](const json &j) { return make_unique<SelectionDescription>(j["id"].get<string>(), j["cand"].get<string>(), j["seq"].get<uint64_t>()); },
            [](SelectionDescription &x) { return js(x); });
    else if (k == "contd")
        history<ContestDescription, C | MOVE>(a, o, buildContest, [](ContestDescription &x) { return dumpContest(x); });
    else if (k == "contp")
        history<ContestDescriptionWithPlaceholders, C | MOVE>(a, o, [](const json &j) {
            auto d = buildContest(j);
            vector<unique_ptr<SelectionDescription>> ph;
            for (auto &s : j["ph"]) ph.push_back(make_unique<SelectionDescription>(s["id"].get<string>(), s["cand"].get<string>(), s["seq"].get<uint64_t>()));
            return make_unique<ContestDescriptionWithPlaceholders>(*d, std::move(ph)); },
            [](ContestDescriptionWithPlaceholders &x) { return dumpContestP(x); });
    else if (k == "man")
        history<Manifest, MOVE>(a, o, buildManifest, [](Manifest &x) { return dumpManifest(x); });
    else if (k == "int")
        history<InternalManifest, MOVE>(a, o, [](const json &j) { return make_unique<InternalManifest>(*buildManifest(j)); }, [](InternalManifest &x) { return dumpInternal(x); });
    else if (k == "ps")
        history<PlaintextBallotSelection, C | CLONE | MOVE>(a, o, buildPlainSelection, [](PlaintextBallotSelection &y) {
            return json{y.getObjectId(), y.getVote(), y.getIsPlaceholder(), y.getWriteIn()}; });
    else if (k == "pc")
        history<PlaintextBallotContest, C | MOVE>(a, o, buildPlainContest, [](PlaintextBallotContest &c) {
            json s = json::array();
            for (auto &x : c.getSelections()) s.push_back({x.get().getObjectId(), x.get().getVote(), x.get().getIsPlaceholder(), x.get().getWriteIn()});
            return json{c.getObjectId(), s, c.isValid(c.getObjectId(), 1, 1, 1)}; });
    else if (k == "pb")
        history<PlaintextBallot, C>(a, o, buildPlain, [](PlaintextBallot &b) { return json{dumpPlain(b), attempt([&] { return json(b.toJson()); })}; });
    else if (k == "cs")
        history<CiphertextBallotSelection, C>(a, o, buildSel, [](CiphertextBallotSelection &s) { return json{dumpSel(s), attempt([&] { return jq(s.crypto_hash_with(*s.getDescriptionHash()).get()); })}; },
            [](CiphertextBallotSelection &s) { flipP(s.getCiphertext()->getPad()); flipQ(s.getNonce()); });
    else if (k == "ck")
        history<CiphertextBallotContest, C>(a, o, buildCont, [](CiphertextBallotContest &s) { return json{dumpCont(s), attempt([&] { return jq(s.crypto_hash_with(*s.getDescriptionHash()).get()); })}; },
            [](CiphertextBallotContest &s) { for (auto &x : s.getSelections()) flipP(x.get().getCiphertext()->getPad()); flipQ(s.getNonce()); flipQ(s.getCryptoHash()); });
    else if (k == "cb")
        history<CiphertextBallot, C>(a, o, buildCipher, [](CiphertextBallot &b) { return json{dumpCipher(b), attempt([&] { return jq(b.crypto_hash_with(*b.getManifestHash()).get()); }), attempt([&] { return json(b.toJson(true)); }), attempt([&] { return json(b.toJson(false)); })}; },
            [](CiphertextBallot &b) { for (auto &x : b.getContests()) flipQ(x.get().getCryptoHash()); flipQ(b.getNonce()); flipQ(b.getBallotCode()); flipQ(b.getCryptoHash()); });
    else if (k == "triple")
        history<Triple, C | CLONE | MOVE | MOVEASSIGN>(a, o, [](const json &j) { return make_unique<Triple>(rpc::makeQ(j[0].get<string>()), rpc::makeP(j[1].get<string>()), rpc::makeP(j[2].get<string>())); },
            [](Triple &t) { return json{jq(t.get_exp().get()), jp(t.get_g_to_exp().get()), jp(t.get_pubkey_to_exp().get())}; });
    else if (k == "quad")
        history<Quadruple, C | CLONE | MOVE | MOVEASSIGN>(a, o, [](const json &j) { return make_unique<Quadruple>(rpc::makeQ(j[0].get<string>()), rpc::makeQ(j[1].get<string>()), rpc::makeP(j[2].get<string>()), rpc::makeP(j[3].get<string>())); },
            [](Quadruple &t) { return json{jq(t.get_exp1().get()), jq(t.get_exp2().get()), jp(t.get_g_to_exp1().get()), jp(t.get_g_to_exp2_mult_by_pubkey_to_exp1().get())}; });
    else if (k == "ttq")
        history<TwoTriplesAndAQuadruple, C | CLONE | MOVE | MOVEASSIGN>(a, o, [](const json &j) {
            auto t = [](const json &j) { return make_unique<Triple>(rpc::makeQ(j[0].get<string>()), rpc::makeP(j[1].get<string>()), rpc::makeP(j[2].get<string>())); };
            return make_unique<TwoTriplesAndAQuadruple>(t(j[0]), t(j[1]), make_unique<Quadruple>(rpc::makeQ(j[2][0].get<string>()), rpc::makeQ(j[2][1].get<string>()), rpc::makeP(j[2][2].get<string>()), rpc::makeP(j[2][3].get<string>()))); },
            [](TwoTriplesAndAQuadruple &t) {
                auto d = [](unique_ptr<Triple> t) { return json{jq(t->get_exp().get()), jp(t->get_g_to_exp().get()), jp(t->get_pubkey_to_exp().get())}; };
                auto q = t.get_quad();
                return json{d(t.get_triple1()), d(t.get_triple2()), jq(q->get_exp1().get()), jq(q->get_exp2().get()), jp(q->get_g_to_exp1().get()), jp(q->get_g_to_exp2_mult_by_pubkey_to_exp1().get())}; });
    else throw BadCall("kind");
} END;
