#include "objects.hpp"

namespace obj
{
    using std::make_unique;
    string dumps(const json &j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }
    string phex(const ElementModP *e)
    {
        Out o;
        o.P(e);
        return o.s.substr(1);
    }
    string qhex(const ElementModQ *e)
    {
        Out o;
        o.Q(e);
        return o.s.substr(1);
    }
    json jp(const ElementModP *e) { return e ? json(phex(e)) : json(nullptr); }
    json jq(const ElementModQ *e) { return e ? json(qhex(e)) : json(nullptr); }
    static unique_ptr<ElementModP> P(const json &j) { return j.is_null() ? nullptr : rpc::makeP(j.get<string>()); }
    static unique_ptr<ElementModQ> Q(const json &j) { return j.is_null() ? nullptr : rpc::makeQ(j.get<string>()); }
    static string bhex(const vector<uint8_t> &v)
    {
        Out o;
        o.bytes(v);
        return o.s.substr(1);
    }
    static vector<uint8_t> hexb(const json &j)
    {
        auto s = rpc::unhex(j.get<string>());
        return vector<uint8_t>(s.begin(), s.end());
    }

    // ---- manifest ---------------------------------------------------------------------------
    unique_ptr<InternationalizedText> buildText(const json &j)
    {
        if (j.is_null()) return nullptr;
        vector<unique_ptr<Language>> v;
        for (auto &l : j) v.push_back(make_unique<Language>(l[0].get<string>(), l[1].get<string>()));
        return make_unique<InternationalizedText>(std::move(v));
    }
    static vector<unique_ptr<AnnotatedString>> annotated(const json &j)
    {
        vector<unique_ptr<AnnotatedString>> v;
        for (auto &l : j) v.push_back(make_unique<AnnotatedString>(l[0].get<string>(), l[1].get<string>()));
        return v;
    }
    unique_ptr<ContactInformation> buildContact(const json &j)
    {
        if (j.is_null()) return nullptr;
        auto name = j["name"].get<string>();
        auto addr = j["addr"].get<vector<string>>();
        switch (j.value("ctor", 3)) {
            case 0: return make_unique<ContactInformation>(name);
            case 1: return make_unique<ContactInformation>(addr, name);
            case 2: return make_unique<ContactInformation>(addr, annotated(j["phone"]), name);
        }
        return make_unique<ContactInformation>(addr, annotated(j["email"]), annotated(j["phone"]), name);
    }
    unique_ptr<GeopoliticalUnit> buildGp(const json &j)
    {
        auto t = (ReportingUnitType)j["type"].get<int>();
        if (j["contact"].is_null())
            return make_unique<GeopoliticalUnit>(j["id"].get<string>(), j["name"].get<string>(), t);
        return make_unique<GeopoliticalUnit>(j["id"].get<string>(), j["name"].get<string>(), t, buildContact(j["contact"]));
    }
    unique_ptr<Party> buildParty(const json &j)
    {
        auto id = j["id"].get<string>(), ab = j["abbr"].get<string>(), co = j["color"].get<string>(), lo = j["logo"].get<string>();
        switch (j.value("ctor", 3)) {
            case 0: return make_unique<Party>(id);
            case 1: return make_unique<Party>(id, ab);
            case 2: return make_unique<Party>(id, ab, co, lo);
        }
        return make_unique<Party>(id, buildText(j["name"]), ab, co, lo);
    }
    unique_ptr<Candidate> buildCand(const json &j)
    {
        auto id = j["id"].get<string>(), pa = j["party"].get<string>(), im = j["image"].get<string>();
        bool w = j["writein"].get<bool>();
        switch (j.value("ctor", 4)) {
            case 0: return make_unique<Candidate>(id, w);
            case 1: return make_unique<Candidate>(id, pa, w);
            case 2: return make_unique<Candidate>(id, buildText(j["name"]), w);
            case 3: return make_unique<Candidate>(id, buildText(j["name"]), pa, w);
        }
        return make_unique<Candidate>(id, buildText(j["name"]), pa, im, w);
    }
    static vector<unique_ptr<SelectionDescription>> buildSels(const json &j)
    {
        vector<unique_ptr<SelectionDescription>> v;
        for (auto &s : j)
            v.push_back(make_unique<SelectionDescription>(s["id"].get<string>(), s["cand"].get<string>(), s["seq"].get<uint64_t>()));
        return v;
    }
    unique_ptr<ContestDescription> buildContest(const json &j)
    {
        auto id = j["id"].get<string>(), di = j["district"].get<string>(), na = j["name"].get<string>();
        auto seq = j["seq"].get<uint64_t>(), n = j["n"].get<uint64_t>(), votes = j["votes"].get<uint64_t>();
        auto var = (VoteVariationType)j["var"].get<int>();
        auto pa = j["parties"].get<vector<string>>();
        switch (j.value("ctor", 2)) {
            case 0: return make_unique<ContestDescription>(id, di, seq, var, n, na, buildSels(j["sels"]));
            case 1: return make_unique<ContestDescription>(id, di, seq, var, n, na, buildSels(j["sels"]), pa);
            case 3:
                return make_unique<ContestDescription>(id, di, seq, var, n, votes, na, buildText(j["title"]),
                                                       buildText(j["subtitle"]), buildSels(j["sels"]));
        }
        return make_unique<ContestDescription>(id, di, seq, var, n, votes, na, buildText(j["title"]), buildText(j["subtitle"]),
                                               buildSels(j["sels"]), pa);
    }
    unique_ptr<BallotStyle> buildStyle(const json &x)
    {
        auto id = x["id"].get<string>();
        auto gp = x["gpus"].get<vector<string>>(), pa = x["parties"].get<vector<string>>();
        auto im = x["image"].get<string>();
        if (pa.empty() && im.empty()) return make_unique<BallotStyle>(id, gp);
        return make_unique<BallotStyle>(id, gp, pa, im);
    }
    unique_ptr<Manifest> buildManifest(const json &j)
    {
        vector<unique_ptr<GeopoliticalUnit>> g;
        vector<unique_ptr<Party>> p;
        vector<unique_ptr<Candidate>> c;
        vector<unique_ptr<ContestDescription>> k;
        vector<unique_ptr<BallotStyle>> s;
        for (auto &x : j["gpus"]) g.push_back(buildGp(x));
        for (auto &x : j["parties"]) p.push_back(buildParty(x));
        for (auto &x : j["candidates"]) c.push_back(buildCand(x));
        for (auto &x : j["contests"]) k.push_back(buildContest(x));
        for (auto &x : j["styles"]) s.push_back(buildStyle(x));
        auto tp = [](const json &t) {
            return std::chrono::system_clock::time_point(
              std::chrono::milliseconds((int64_t)(t.is_number_float() ? t.get<double>() * 1000 : t.get<int64_t>() * 1000)));
        };
        auto scope = j["scope"].get<string>();
        auto type = (ElectionType)j["type"].get<int>();
        if (j["name"].is_null() && j["contact"].is_null() && j.value("ctor", 1) == 0)
            return make_unique<Manifest>(scope, type, tp(j["start"]), tp(j["end"]), std::move(g), std::move(p), std::move(c),
                                         std::move(k), std::move(s));
        return make_unique<Manifest>(scope, type, tp(j["start"]), tp(j["end"]), std::move(g), std::move(p), std::move(c),
                                     std::move(k), std::move(s), buildText(j["name"]), buildContact(j["contact"]));
    }
    json jt(const InternationalizedText *t)
    {
        if (!t) return nullptr;
        json l = json::array();
        for (auto &x : t->getText()) l.push_back({x.get().getValue(), x.get().getLanguage()});
        return l;
    }
    json jc(const ContactInformation *c)
    {
        if (!c) return nullptr;
        json e = json::array(), p = json::array();
        for (auto &x : c->getEmail()) e.push_back({x.get().getAnnotation(), x.get().getValue()});
        for (auto &x : c->getPhone()) p.push_back({x.get().getAnnotation(), x.get().getValue()});
        return {{"name", c->getName()}, {"addr", c->getAddressLine()}, {"email", e}, {"phone", p}, {"hash", jq(c->crypto_hash().get())}};
    }
    json js(const SelectionDescription &s)
    {
        return {{"id", s.getObjectId()}, {"cand", s.getCandidateId()}, {"seq", s.getSequenceOrder()}, {"hash", jq(s.crypto_hash().get())}};
    }
    json dumpContest(const ContestDescription &c)
    {
        json sels = json::array();
        for (auto &s : c.getSelections()) sels.push_back(js(s.get()));
        return {{"id", c.getObjectId()}, {"district", c.getElectoralDistrictId()}, {"seq", c.getSequenceOrder()},
                {"var", (int)c.getVoteVariation()}, {"n", c.getNumberElected()}, {"votes", c.getVotesAllowed()},
                {"name", c.getName()}, {"title", jt(c.getBallotTitle())}, {"subtitle", jt(c.getBallotSubtitle())},
                {"sels", sels}, {"hash", jq(c.crypto_hash().get())}, {"valid", c.isValid()}};
    }
    json dumpContestP(const ContestDescriptionWithPlaceholders &c)
    {
        auto j = dumpContest(c);
        json ph = json::array(), isph = json::array();
        for (auto &s : c.getPlaceholders()) {
            ph.push_back(js(s.get()));
            isph.push_back(c.IsPlaceholder(s.get()));
        }
        for (auto &s : c.getSelections()) isph.push_back(c.IsPlaceholder(s.get()));
        j["placeholders"] = ph;
        j["isph"] = isph;
        return j;
    }
    json jgp(const GeopoliticalUnit &g)
    {
        return {{"id", g.getObjectId()}, {"name", g.getName()}, {"type", (int)g.getType()}, {"contact", jc(g.getContactInformation())},
                {"hash", jq(g.crypto_hash().get())}};
    }
    json jcand(const Candidate &c)
    {
        return {{"id", c.getObjectId()}, {"cid", c.getCandidateId()}, {"name", jt(c.getName())}, {"party", c.getPartyId()},
                {"image", c.getImageUri()}, {"writein", c.isWriteIn()}, {"hash", jq(c.crypto_hash().get())}};
    }
    json jparty(const Party &y)
    {
        return {{"id", y.getObjectId()}, {"name", jt(y.getName())}, {"abbr", y.getAbbreviation()}, {"color", y.getColor()},
                {"logo", y.getLogoUri()}, {"hash", jq(y.crypto_hash().get())}};
    }
    json jstyle(const BallotStyle &s)
    {
        return {{"id", s.getObjectId()}, {"gpus", s.getGeopoliticalUnitIds()}, {"parties", s.getPartyIds()}, {"image", s.getImageUri()},
                {"hash", jq(s.crypto_hash().get())}};
    }
    static int64_t secs(std::chrono::system_clock::time_point t)
    {
        return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count();
    }
    json dumpManifest(const Manifest &m)
    {
        json g = json::array(), p = json::array(), c = json::array(), k = json::array(), s = json::array();
        for (auto &x : m.getGeopoliticalUnits()) g.push_back(jgp(x.get()));
        for (auto &x : m.getParties()) p.push_back(jparty(x.get()));
        for (auto &x : m.getCandidates()) c.push_back(jcand(x.get()));
        for (auto &x : m.getContests()) k.push_back(dumpContest(x.get()));
        for (auto &x : m.getBallotStyles()) s.push_back(jstyle(x.get()));
        return {{"scope", m.getElectionScopeId()}, {"type", (int)m.getElectionType()}, {"start", secs(m.getStartDate())},
                {"end", secs(m.getEndDate())}, {"gpus", g}, {"parties", p}, {"candidates", c}, {"contests", k}, {"styles", s},
                {"name", jt(m.getName())}, {"contact", jc(m.getContactInformation())}, {"hash", jq(m.crypto_hash().get())},
                {"valid", m.isValid()}};
    }
    json dumpInternal(const InternalManifest &m)
    {
        json g = json::array(), c = json::array(), k = json::array(), s = json::array();
        for (auto &x : m.getGeopoliticalUnits()) g.push_back(jgp(x.get()));
        for (auto &x : m.getCandidates()) c.push_back(jcand(x.get()));
        for (auto &x : m.getContests()) k.push_back(dumpContestP(x.get()));
        for (auto &x : m.getBallotStyles()) s.push_back(jstyle(x.get()));
        return {{"gpus", g}, {"candidates", c}, {"contests", k}, {"styles", s}, {"hash", jq(m.getManifestHash())}};
    }
    json dumpContext(const CiphertextElectionContext &c)
    {
        json e = json::object();
        for (auto &kv : c.getExtendedData()) e[kv.first] = kv.second;
        auto *f = c.getConfiguration();
        return {{"n", c.getNumberOfGuardians()}, {"k", c.getQuorum()}, {"key", jp(c.getElGamalPublicKey())},
                {"commit", jq(c.getCommitmentHash())}, {"mh", jq(c.getManifestHash())}, {"base", jq(c.getCryptoBaseHash())},
                {"ext", jq(c.getCryptoExtendedBaseHash())}, {"data", e},
                {"cfg", f ? json({f->getAllowOverVotes(), f->getMaxNumberOfBallots()}) : json(nullptr)}};
    }
    json dumpDevice(const EncryptionDevice &d)
    {
        return {{"dev", d.getDeviceUuid()}, {"session", d.getSessionUuid()}, {"launch", d.getLaunchCode()}, {"loc", d.getLocation()},
                {"hash", jq(d.getHash().get())}};
    }

    // ---- ballots ----------------------------------------------------------------------------
    unique_ptr<PlaintextBallotSelection> buildPlainSelection(const json &j)
    {
        return make_unique<PlaintextBallotSelection>(j["id"].get<string>(), j["vote"].get<uint64_t>(), j.value("ph", false),
                                                     j.value("writein", string()));
    }
    unique_ptr<PlaintextBallotContest> buildPlainContest(const json &j)
    {
        vector<unique_ptr<PlaintextBallotSelection>> v;
        for (auto &s : j["sels"]) v.push_back(buildPlainSelection(s));
        return make_unique<PlaintextBallotContest>(j["id"].get<string>(), std::move(v));
    }
    unique_ptr<PlaintextBallot> buildPlain(const json &j)
    {
        vector<unique_ptr<PlaintextBallotContest>> v;
        for (auto &c : j["contests"]) v.push_back(buildPlainContest(c));
        return make_unique<PlaintextBallot>(j["id"].get<string>(), j["style"].get<string>(), std::move(v));
    }
    json dumpPlain(const PlaintextBallot &b)
    {
        json k = json::array();
        for (auto &c : b.getContests()) {
            json s = json::array();
            for (auto &x : c.get().getSelections()) {
                auto &y = x.get();
                s.push_back({{"id", y.getObjectId()}, {"vote", y.getVote()}, {"ph", y.getIsPlaceholder()}, {"writein", y.getWriteIn()}});
            }
            k.push_back({{"id", c.get().getObjectId()}, {"sels", s}});
        }
        return {{"id", b.getObjectId()}, {"style", b.getStyleId()}, {"contests", k}};
    }
    json jproof(const DisjunctiveChaumPedersenProof *p)
    {
        if (!p) return nullptr;
        return {jp(p->getProofZeroPad()), jp(p->getProofZeroData()), jp(p->getProofOnePad()), jp(p->getProofOneData()),
                jq(p->getProofZeroChallenge()), jq(p->getProofOneChallenge()), jq(p->getChallenge()), jq(p->getProofZeroResponse()),
                jq(p->getProofOneResponse())};
    }
    json dumpSel(CiphertextBallotSelection &s)
    {
        auto *c = s.getCiphertext();
        return {{"id", s.getObjectId()}, {"seq", s.getSequenceOrder()}, {"dh", jq(s.getDescriptionHash())}, {"ph", s.getIsPlaceholder()},
                {"pad", c ? jp(c->getPad()) : json(nullptr)}, {"data", c ? jp(c->getData()) : json(nullptr)}, {"nonce", jq(s.getNonce())},
                {"hash", jq(s.getCryptoHash())}, {"proof", jproof(s.getProof())}};
    }
    json jconst(const ConstantChaumPedersenProof *p)
    {
        if (!p) return nullptr;
        return {jp(p->getPad()), jp(p->getData()), jq(p->getChallenge()), jq(p->getResponse()), p->getConstant()};
    }
    json jhashed(const HashedElGamalCiphertext &h) { return {{"pad", jp(h.getPad())}, {"data", bhex(h.getData())}, {"mac", bhex(h.getMac())}}; }
    json dumpCont(CiphertextBallotContest &c)
    {
        json s = json::array();
        for (auto &x : c.getSelections()) s.push_back(dumpSel(x.get()));
        json acc = nullptr, he = nullptr, pr = jconst(c.getProof());
        if (auto *a = c.getCiphertextAccumulation()) acc = {jp(a->getPad()), jp(a->getData())};
        if (auto h = c.getHashedElGamalCiphertext()) he = jhashed(*h);
        return {{"id", c.getObjectId()}, {"seq", c.getSequenceOrder()}, {"dh", jq(c.getDescriptionHash())}, {"nonce", jq(c.getNonce())},
                {"acc", acc}, {"hash", jq(c.getCryptoHash())}, {"proof", pr}, {"hashed", he}, {"sels", s}};
    }
    json dumpCipher(const CiphertextBallot &b)
    {
        json k = json::array();
        for (auto &x : b.getContests()) k.push_back(dumpCont(x.get()));
        return {{"id", b.getObjectId()}, {"style", b.getStyleId()}, {"mh", jq(b.getManifestHash())}, {"seed", jq(b.getBallotCodeSeed())},
                {"code", jq(b.getBallotCode())}, {"ts", b.getTimestamp()}, {"nonce", jq(b.getNonce())}, {"hash", jq(b.getCryptoHash())},
                {"contests", k}};
    }
    unique_ptr<DisjunctiveChaumPedersenProof> buildDisj(const json &r)
    {
        if (r.is_null()) return nullptr;
        return make_unique<DisjunctiveChaumPedersenProof>(P(r[0]), P(r[1]), P(r[2]), P(r[3]), Q(r[4]), Q(r[5]), Q(r[6]), Q(r[7]), Q(r[8]));
    }
    unique_ptr<CiphertextBallotSelection> buildSel(const json &j)
    {
        auto p = buildDisj(j["proof"]);
        return make_unique<CiphertextBallotSelection>(j["id"].get<string>(), j["seq"].get<uint64_t>(), *Q(j["dh"]),
                                                      make_unique<ElGamalCiphertext>(P(j["pad"]), P(j["data"])), j["ph"].get<bool>(),
                                                      Q(j["nonce"]), Q(j["hash"]), std::move(p));
    }
    unique_ptr<ConstantChaumPedersenProof> buildConst(const json &r)
    {
        if (r.is_null()) return nullptr;
        return make_unique<ConstantChaumPedersenProof>(P(r[0]), P(r[1]), Q(r[2]), Q(r[3]), r[4].get<uint64_t>());
    }
    unique_ptr<HashedElGamalCiphertext> buildHashed(const json &j)
    {
        if (j.is_null()) return nullptr;
        return make_unique<HashedElGamalCiphertext>(P(j["pad"]), hexb(j["data"]), hexb(j["mac"]));
    }
    unique_ptr<ElGamalCiphertext> buildPair(const json &j)
    {
        if (j.is_null()) return nullptr;
        return make_unique<ElGamalCiphertext>(P(j[0]), P(j[1]));
    }
    unique_ptr<CiphertextBallotContest> buildCont(const json &j)
    {
        vector<unique_ptr<CiphertextBallotSelection>> v;
        for (auto &s : j["sels"]) v.push_back(buildSel(s));
        auto p = buildConst(j["proof"]);
        auto h = buildHashed(j["hashed"]);
        auto acc = buildPair(j["acc"]);
        return make_unique<CiphertextBallotContest>(j["id"].get<string>(), j["seq"].get<uint64_t>(), *Q(j["dh"]), std::move(v),
                                                    Q(j["nonce"]), std::move(acc), Q(j["hash"]), std::move(p), std::move(h));
    }
    unique_ptr<CiphertextBallot> buildCipher(const json &j)
    {
        vector<unique_ptr<CiphertextBallotContest>> v;
        for (auto &c : j["contests"]) v.push_back(buildCont(c));
        return make_unique<CiphertextBallot>(j["id"].get<string>(), j["style"].get<string>(), *Q(j["mh"]), Q(j["seed"]), std::move(v),
                                             Q(j["code"]), j["ts"].get<uint64_t>(), Q(j["nonce"]), Q(j["hash"]));
    }
    json dumpCompactPlain(const CompactPlaintextBallot &b)
    {
        return {{"id", b.getObjectId()}, {"style", b.getStyleId()}, {"sels", b.getSelections()}, {"writeins", b.getWriteIns()}};
    }
    json dumpCompactCipher(const CompactCiphertextBallot &b)
    {
        return {{"id", b.getObjectId()}, {"plain", dumpCompactPlain(*b.getPlaintext())}, {"seed", jq(b.getBallotCodeSeed())},
                {"code", jq(b.getBallotCode())}, {"nonce", jq(b.getNonce())}, {"ts", b.getTimestamp()},
                {"state", (int)b.getBallotBoxState()}};
    }
    unique_ptr<CompactPlaintextBallot> buildCompactPlain(const json &j)
    {
        return make_unique<CompactPlaintextBallot>(j["id"].get<string>(), j["style"].get<string>(), j["sels"].get<vector<uint64_t>>(),
                                                   j["writeins"].get<vector<string>>());
    }
    unique_ptr<CompactCiphertextBallot> buildCompactCipher(const json &j)
    {
        return make_unique<CompactCiphertextBallot>(buildCompactPlain(j["plain"]), (BallotBoxState)j["state"].get<int>(), Q(j["seed"]),
                                                    Q(j["code"]), j["ts"].get<uint64_t>(), Q(j["nonce"]));
    }
} // namespace obj
