// Commands on election objects. Documents and specifications travel as hexadecimal blobs.
#include "objects.hpp"
#include "electionguard/precompute_buffers.hpp"
#include <thread>
using namespace obj;
using rpc::BadCall;

namespace
{
    json arg(Args &a) { return json::parse(a.blob()); }
    vector<uint8_t> bytesOf(const string &s) { return vector<uint8_t>(s.begin(), s.end()); }

    // fmt: j json, b bson, m msgpack
    template <class T> unique_ptr<T> load3(char f, const string &d)
    {
        if (f == 'j') return T::fromJson(d);
        if (f == 'b') return T::fromBson(bytesOf(d));
        if (f == 'm') return T::fromMsgPack(bytesOf(d));
        throw BadCall("format");
    }
    template <class T> unique_ptr<T> load2(char f, const string &d)
    {
        if (f == 'j') return T::fromJson(d);
        if (f == 'b') return T::fromBson(bytesOf(d));
        throw BadCall("format");
    }
    template <class T> string ser3(const T &t, char f)
    {
        if (f == 'j') return t.toJson();
        auto v = f == 'b' ? t.toBson() : t.toMsgPack();
        return string(v.begin(), v.end());
    }
    template <class T> string ser2(const T &t, char f)
    {
        if (f == 'j') return t.toJson();
        auto v = t.toBson();
        return string(v.begin(), v.end());
    }
    string serCipher(const CiphertextBallot &b, char f, bool nonces)
    {
        if (f == 'j') return b.toJson(nonces);
        auto v = f == 'b' ? b.toBson(nonces) : b.toMsgPack(nonces);
        return string(v.begin(), v.end());
    }
    std::thread populating;
} // namespace

// ---- generic: load kind name fmt doc; ser kind name fmt [nonces]; dump kind name; drop kind name
CMD("load")
{
    auto kind = a.next(), name = a.next();
    char f = a.next()[0];
    auto d = a.blob();
    if (kind == "man") reg<Manifest>()[name] = load3<Manifest>(f, d);
    else if (kind == "int") reg<InternalManifest>()[name] = load3<InternalManifest>(f, d);
    else if (kind == "ctx") reg<CiphertextElectionContext>()[name] = load2<CiphertextElectionContext>(f, d);
    else if (kind == "dev") reg<EncryptionDevice>()[name] = load2<EncryptionDevice>(f, d);
    else if (kind == "pb") reg<PlaintextBallot>()[name] = load3<PlaintextBallot>(f, d);
    else if (kind == "cb") reg<CiphertextBallot>()[name] = load3<CiphertextBallot>(f, d);
    else if (kind == "sb") reg<SubmittedBallot>()[name] = load3<SubmittedBallot>(f, d);
    else if (kind == "cp") reg<CompactPlaintextBallot>()[name] = load3<CompactPlaintextBallot>(f, d);
    else if (kind == "cc") reg<CompactCiphertextBallot>()[name] = load3<CompactCiphertextBallot>(f, d);
    else throw BadCall("kind");
} END;
CMD("ser")
{
    auto kind = a.next(), name = a.next();
    char f = a.next()[0];
    bool nonces = a.more() && a.flag();
    string r;
    if (kind == "man") r = ser3<Manifest>(get<Manifest>(name), f);
    else if (kind == "int") r = ser3<InternalManifest>(get<InternalManifest>(name), f);
    else if (kind == "ctx") r = ser2(get<CiphertextElectionContext>(name), f);
    else if (kind == "dev") r = ser2(get<EncryptionDevice>(name), f);
    else if (kind == "pb") r = ser3(get<PlaintextBallot>(name), f);
    else if (kind == "cb") r = serCipher(get<CiphertextBallot>(name), f, nonces);
    else if (kind == "sb") r = ser3(get<SubmittedBallot>(name), f);
    else if (kind == "sbc") r = serCipher(get<SubmittedBallot>(name), f, nonces); // through the base class
    else if (kind == "cp") r = ser3(get<CompactPlaintextBallot>(name), f);
    else if (kind == "cc") r = ser3(get<CompactCiphertextBallot>(name), f);
    else throw BadCall("kind");
    o.blob(r);
} END;
CMD("dump")
{
    auto kind = a.next(), name = a.next();
    json r;
    if (kind == "man") r = dumpManifest(get<Manifest>(name));
    else if (kind == "int") r = dumpInternal(get<InternalManifest>(name));
    else if (kind == "ctx") r = dumpContext(get<CiphertextElectionContext>(name));
    else if (kind == "dev") r = dumpDevice(get<EncryptionDevice>(name));
    else if (kind == "pb") r = dumpPlain(get<PlaintextBallot>(name));
    else if (kind == "cb") r = dumpCipher(get<CiphertextBallot>(name));
    else if (kind == "sb") {
        r = dumpCipher(get<SubmittedBallot>(name));
        r["state"] = (int)get<SubmittedBallot>(name).getState();
    } else if (kind == "cp") r = dumpCompactPlain(get<CompactPlaintextBallot>(name));
    else if (kind == "cc") r = dumpCompactCipher(get<CompactCiphertextBallot>(name));
    else throw BadCall("kind");
    o.blob(dumps(r));
} END;
CMD("dropall")
{
    reg<Manifest>().clear(); reg<InternalManifest>().clear(); reg<CiphertextElectionContext>().clear();
    reg<EncryptionMediator>().clear(); reg<EncryptionDevice>().clear(); reg<PlaintextBallot>().clear();
    reg<CiphertextBallot>().clear(); reg<SubmittedBallot>().clear(); reg<CompactPlaintextBallot>().clear();
    reg<CompactCiphertextBallot>().clear();
} END;
// ---- manifest
CMD("man_build") { auto n = a.next(); reg<Manifest>()[n] = buildManifest(arg(a)); } END;
CMD("man_hash") { o.Q(*get<Manifest>(a.next()).crypto_hash()); } END;
CMD("man_valid") { o.flag(get<Manifest>(a.next()).isValid()); } END;
CMD("int_make") { auto n = a.next(); reg<InternalManifest>()[n] = std::make_unique<InternalManifest>(get<Manifest>(a.next())); } END;
CMD("int_for")
{
    auto &m = get<InternalManifest>(a.next());
    json r = json::array();
    for (auto &c : m.getContestsFor(a.blob())) r.push_back(dumpContestP(c.get()));
    o.blob(dumps(r));
} END;
CMD("int_style")
{
    auto &m = get<InternalManifest>(a.next());
    auto *s = m.getBallotStyle(a.blob());
    o.flag(s != nullptr);
    if (s) o.blob(s->getObjectId());
} END;
// int_selfor name contest selection: ContestDescriptionWithPlaceholders::selectionFor
CMD("int_selfor")
{
    auto &m = get<InternalManifest>(a.next());
    auto c = a.blob(), s = a.blob();
    for (auto &k : m.getContests())
        if (k.get().getObjectId() == c) {
            auto r = k.get().selectionFor(s);
            o.blob(r.get().getObjectId());
            o.u64(r.get().getSequenceOrder());
            return;
        }
    throw BadCall("no contest");
} END;
CMD("enums")
{
    json e = json::array(), r = json::array(), v = json::array(), b = json::array();
    for (int i = 0; i <= 7; i++) { auto s = getElectionTypeString((ElectionType)i); e.push_back({s, (int)getElectionType(s)}); }
    for (int i = 0; i <= 28; i++) { auto s = getReportingUnitTypeString((ReportingUnitType)i); r.push_back({s, (int)getReportingUnitType(s)}); }
    for (int i = 0; i <= 12; i++) { auto s = getVoteVariationTypeString((VoteVariationType)i); v.push_back({s, (int)getVoteVariationType(s)}); }
    for (int i : {1, 2, 999}) { auto s = getBallotBoxStateString((BallotBoxState)i); b.push_back({s, (int)getBallotBoxState(s)}); }
    o.blob(dumps({{"election", e}, {"unit", r}, {"vote", v}, {"box", b}}));
} END;
// ---- context: ctx_make name way n k key commit mh cfg(- | allow:max) ext(json)
// way: e elements, h hexadecimal, c constructor (hashes given as extra arguments base ext)
CMD("ctx_make")
{
    auto name = a.next();
    auto way = a.next();
    auto n = a.u64(), k = a.u64();
    auto key = a.next(), commit = a.next(), mh = a.next(), cfg = a.next();
    auto extj = arg(a);
    unique_ptr<ContextConfiguration> cf;
    if (cfg != "-") {
        auto f = rpc::split(cfg, ':');
        cf = ContextConfiguration::make(f[0] == "1", std::stoull(f[1]));
    }
    bool hasExt = !extj.is_null();
    std::unordered_map<string, string> ext;
    if (hasExt) for (auto &it : extj.items()) ext[it.key()] = it.value().get<string>();
    auto P = [&] { return rpc::makeP(key, false); };
    auto Q = [&](const string &h) { return rpc::makeQ(h); };
    using C = CiphertextElectionContext;
    unique_ptr<C> c;
    if (way == "e") {
        if (cf && hasExt) c = C::make(n, k, P(), Q(commit), Q(mh), std::move(cf), ext);
        else if (cf) c = C::make(n, k, P(), Q(commit), Q(mh), std::move(cf));
        else if (hasExt) c = C::make(n, k, P(), Q(commit), Q(mh), ext);
        else c = C::make(n, k, P(), Q(commit), Q(mh));
    } else if (way == "f") { // as elements, with an accelerated key
        c = C::make(n, k, rpc::makeP(key, true), Q(commit), Q(mh));
    } else if (way == "h") {
        if (cf && hasExt) c = C::make(n, k, key, commit, mh, std::move(cf), ext);
        else if (cf) c = C::make(n, k, key, commit, mh, std::move(cf));
        else if (hasExt) c = C::make(n, k, key, commit, mh, ext);
        else c = C::make(n, k, key, commit, mh);
    } else {
        auto base = Q(a.next()), eb = Q(a.next());
        if (cf && hasExt) c = std::make_unique<C>(n, k, P(), Q(commit), Q(mh), std::move(base), std::move(eb), std::move(cf), ext);
        else if (cf) c = std::make_unique<C>(n, k, P(), Q(commit), Q(mh), std::move(base), std::move(eb), std::move(cf));
        else if (hasExt) c = std::make_unique<C>(n, k, P(), Q(commit), Q(mh), std::move(base), std::move(eb), ext);
        else c = std::make_unique<C>(n, k, P(), Q(commit), Q(mh), std::move(base), std::move(eb));
    }
    reg<C>()[name] = std::move(c);
} END;
// ---- device and codes
CMD("dev_make")
{
    auto n = a.next();
    auto d = a.u64(), s = a.u64(), l = a.u64();
    reg<EncryptionDevice>()[n] = std::make_unique<EncryptionDevice>(d, s, l, a.blob());
} END;
CMD("dev_ts") { o.u64(get<EncryptionDevice>(a.next()).getTimestamp()); } END;
CMD("code_device") { auto d = a.u64(), s = a.u64(), l = a.u64(); o.Q(*BallotCode::getHashForDevice(d, s, l, a.blob())); } END;
CMD("code_ballot") { auto s = a.Q(); auto t = a.u64(); o.Q(*BallotCode::getBallotCode(*s, t, *a.Q())); } END;
// ---- plaintext
CMD("pb_build") { auto n = a.next(); reg<PlaintextBallot>()[n] = buildPlain(arg(a)); } END;
CMD("pc_valid")
{
    auto c = buildPlainContest(arg(a));
    auto id = a.blob();
    auto ns = a.u64(), ne = a.u64(), va = a.u64();
    bool sup = a.flag();
    o.u64(c->isValid(id, ns, ne, va, sup));
} END;
CMD("ps_valid") { auto s = buildPlainSelection(arg(a)); o.flag(s->isValid(a.blob())); } END;
// ---- encryption
// enc_ballot out pb int ctx seed nonce|- ts verify
CMD("enc_ballot")
{
    auto out = a.next();
    auto &b = get<PlaintextBallot>(a.next());
    auto &m = get<InternalManifest>(a.next());
    auto &c = get<CiphertextElectionContext>(a.next());
    auto seed = a.Q();
    auto n = a.next();
    auto ts = a.u64();
    bool v = a.flag();
    reg<CiphertextBallot>()[out] = encryptBallot(b, m, c, *seed, n == "-" ? nullptr : rpc::makeQ(n), ts, v);
} END;
CMD("enc_compact")
{
    auto out = a.next();
    auto &b = get<PlaintextBallot>(a.next());
    auto &m = get<InternalManifest>(a.next());
    auto &c = get<CiphertextElectionContext>(a.next());
    auto seed = a.Q();
    auto n = a.next();
    auto ts = a.u64();
    bool v = a.flag();
    reg<CompactCiphertextBallot>()[out] = encryptCompactBallot(b, m, c, *seed, n == "-" ? nullptr : rpc::makeQ(n), ts, v);
} END;
// enc_contests pb int ctx nonceseed verify -> json list
CMD("enc_contests")
{
    auto &b = get<PlaintextBallot>(a.next());
    auto &m = get<InternalManifest>(a.next());
    auto &c = get<CiphertextElectionContext>(a.next());
    auto seed = a.Q();
    auto v = encryptContests(b, m, c, *seed, a.flag());
    json r = json::array();
    for (auto &x : v) r.push_back(dumpCont(*x));
    o.blob(dumps(r));
} END;
// enc_contest contestjson int contestid key ext nonceseed verify -> json
CMD("enc_contest")
{
    auto pc = buildPlainContest(arg(a));
    auto &m = get<InternalManifest>(a.next());
    auto id = a.blob();
    auto key = a.P();
    auto ext = a.Q();
    auto seed = a.Q();
    bool v = a.flag();
    for (auto &k : m.getContests())
        if (k.get().getObjectId() == id) {
            auto e = encryptContest(*pc, m, k.get(), *key, *ext, *seed, v);
            o.blob(dumps(dumpCont(*e)));
            return;
        }
    throw BadCall("no contest");
} END;
// enc_sel seljson id cand seq key ext nonceseed isph verify -> json
CMD("enc_sel")
{
    auto s = buildPlainSelection(arg(a));
    auto id = a.blob(), cand = a.blob();
    auto seq = a.u64();
    SelectionDescription d(id, cand, seq);
    auto key = a.P();
    auto ext = a.Q();
    auto seed = a.Q();
    bool ph = a.flag(), v = a.flag();
    auto e = encryptSelection(*s, d, *key, *ext, *seed, ph, v);
    o.blob(dumps(dumpSel(*e)));
} END;
// sel_make json key ext seed(- for the random maker) plaintext computeproof -> json: made from its parts, absent ones computed
CMD("sel_make")
{
    auto j = arg(a);
    auto key = a.P();
    auto ext = a.Q();
    auto seed = a.next();
    auto v = a.u64();
    bool proof = a.flag();
    auto q = [&](const char *k) { return j[k].is_null() ? nullptr : rpc::makeQ(j[k].get<string>()); };
    auto given = buildSel(j);
    auto ct = make_unique<ElGamalCiphertext>(given->getCiphertext()->getPad()->clone(), given->getCiphertext()->getData()->clone());
    unique_ptr<CiphertextBallotSelection> r;
    if (seed == "-")
        r = CiphertextBallotSelection::make(given->getObjectId(), given->getSequenceOrder(), *given->getDescriptionHash(), std::move(ct), *key, *ext, v,
                                            given->getIsPlaceholder(), proof, q("nonce"), q("hash"));
    else
        r = CiphertextBallotSelection::make(given->getObjectId(), given->getSequenceOrder(), *given->getDescriptionHash(), std::move(ct), *key, *ext,
                                            *rpc::makeQ(seed), v, given->getIsPlaceholder(), q("nonce"), q("hash"),
                                            proof && given->getProof() ? given->getProof()->clone() : nullptr);
    o.blob(dumps(dumpSel(*r)));
} END;
// cont_make json key ext seed n -> json: a contest made from its selections, absent parts computed
CMD("cont_make")
{
    auto j = arg(a);
    auto key = a.P();
    auto ext = a.Q();
    auto seed = a.Q();
    auto n = a.u64();
    vector<unique_ptr<CiphertextBallotSelection>> v;
    for (auto &s : j["sels"]) v.push_back(buildSel(s));
    auto q = [&](const char *k) { return j[k].is_null() ? nullptr : rpc::makeQ(j[k].get<string>()); };
    auto r = CiphertextBallotContest::make(j["id"].get<string>(), j["seq"].get<uint64_t>(), *q("dh"), std::move(v), *key, *ext, *seed, n, q("nonce"), q("hash"),
                                           buildConst(j["proof"]), buildHashed(j["hashed"]));
    o.blob(dumps(dumpCont(*r)));
} END;
// ---- mediator
CMD("med_make")
{
    auto n = a.next();
    auto &m = get<InternalManifest>(a.next());
    auto &c = get<CiphertextElectionContext>(a.next());
    auto &d = get<EncryptionDevice>(a.next());
    reg<EncryptionMediator>()[n] = std::make_unique<EncryptionMediator>(m, c, d);
} END;
CMD("med_encrypt")
{
    auto &m = get<EncryptionMediator>(a.next());
    auto out = a.next();
    auto &b = get<PlaintextBallot>(a.next());
    reg<CiphertextBallot>()[out] = m.encrypt(b, a.flag());
} END;
CMD("med_compact")
{
    auto &m = get<EncryptionMediator>(a.next());
    auto out = a.next();
    auto &b = get<PlaintextBallot>(a.next());
    reg<CompactCiphertextBallot>()[out] = m.compactEncrypt(b, a.flag());
} END;
// ---- encrypted ballots
CMD("cb_build") { auto n = a.next(); reg<CiphertextBallot>()[n] = buildCipher(arg(a)); } END;
// cb_make name json: CiphertextBallot::make from the contests of the specification
CMD("cb_make")
{
    auto n = a.next();
    auto j = arg(a);
    vector<unique_ptr<CiphertextBallotContest>> v;
    for (auto &c : j["contests"]) v.push_back(buildCont(c));
    auto q = [&](const char *k) { return j[k].is_null() ? nullptr : rpc::makeQ(j[k].get<string>()); };
    reg<CiphertextBallot>()[n] = CiphertextBallot::make(j["id"].get<string>(), j["style"].get<string>(), *q("mh"), std::move(v), q("nonce"),
                                                       j["ts"].get<uint64_t>(), q("seed"), q("code"));
} END;
CMD("cb_valid") { auto &b = get<CiphertextBallot>(a.next()); auto mh = a.Q(); auto k = a.P(); o.flag(b.isValidEncryption(*mh, *k, *a.Q())); } END;
// cbj_valid json mh key ext: build, judge, drop
CMD("cbj_valid") { auto b = buildCipher(arg(a)); auto mh = a.Q(); auto k = a.P(); o.flag(b->isValidEncryption(*mh, *k, *a.Q())); } END;
CMD("cc_valid") { auto c = buildCont(arg(a)); auto mh = a.Q(); auto k = a.P(); o.flag(c->isValidEncryption(*mh, *k, *a.Q())); } END;
CMD("cs_valid") { auto c = buildSel(arg(a)); auto mh = a.Q(); auto k = a.P(); o.flag(c->isValidEncryption(*mh, *k, *a.Q())); } END;
// cb_calc name: everything the object computes about itself
CMD("cb_calc")
{
    auto &b = get<CiphertextBallot>(a.next());
    json k = json::array();
    for (auto &c : b.getContests()) {
        json s = json::array();
        for (auto &x : c.get().getSelections()) s.push_back(jq(x.get().crypto_hash_with(*x.get().getDescriptionHash()).get()));
        auto acc = c.get().elgamalAccumulate();
        k.push_back({{"sels", s}, {"hash", jq(c.get().crypto_hash_with(*c.get().getDescriptionHash()).get())},
                     {"acc", {jp(acc->getPad()), jp(acc->getData())}}, {"agg", jq(c.get().aggregateNonce().get())}});
    }
    o.blob(dumps({{"hash", jq(b.crypto_hash_with(*b.getManifestHash()).get())}, {"contests", k},
                  {"nonceseed", b.getNonce() ? jq(b.nonceSeed().get()) : json(nullptr)}}));
} END;
CMD("nonce_seed") { auto mh = a.Q(); auto id = a.blob(); o.Q(*CiphertextBallot::nonceSeed(*mh, id, *a.Q())); } END;
CMD("sb_from")
{
    auto n = a.next();
    auto &b = get<CiphertextBallot>(a.next());
    auto s = (BallotBoxState)a.u64();
    reg<SubmittedBallot>()[n] = SubmittedBallot::from(b, s);
} END;
CMD("sb_valid") { auto &b = get<SubmittedBallot>(a.next()); auto mh = a.Q(); auto k = a.P(); o.flag(b.isValidEncryption(*mh, *k, *a.Q())); } END;
// ---- compact
CMD("cp_build") { auto n = a.next(); reg<CompactPlaintextBallot>()[n] = buildCompactPlain(arg(a)); } END;
CMD("cc_build") { auto n = a.next(); reg<CompactCiphertextBallot>()[n] = buildCompactCipher(arg(a)); } END;
CMD("cp_make")
{
    auto n = a.next();
    auto &b = get<PlaintextBallot>(a.next());
    reg<CompactPlaintextBallot>()[n] = a.more() && a.flag() ? compressPlaintextBallot(b) : CompactPlaintextBallot::make(b);
} END;
CMD("cp_expand")
{
    auto n = a.next();
    auto &c = get<CompactPlaintextBallot>(a.next());
    reg<PlaintextBallot>()[n] = expandCompactPlaintextBallot(c, get<InternalManifest>(a.next()));
} END;
CMD("cc_state") { auto n = a.next(); get<CompactCiphertextBallot>(n).setBallotBoxState((BallotBoxState)a.u64()); } END;
CMD("cc_make")
{
    auto n = a.next();
    auto &p = get<PlaintextBallot>(a.next());
    auto &c = get<CiphertextBallot>(a.next());
    reg<CompactCiphertextBallot>()[n] = a.more() && a.flag() ? compressCiphertextBallot(p, c) : CompactCiphertextBallot::make(p, c);
} END;
CMD("cc_expand")
{
    auto n = a.next();
    auto &c = get<CompactCiphertextBallot>(a.next());
    auto &m = get<InternalManifest>(a.next());
    reg<CiphertextBallot>()[n] = expandCompactCiphertextBallot(c, m, get<CiphertextElectionContext>(a.next()));
} END;
// ---- precompute buffers
CMD("pre_init") { PrecomputeBufferContext::init((uint32_t)a.u64()); } END;
CMD("pre_fill") { auto k = a.P(a.flag()); PrecomputeBufferContext::populate(*k); } END;
CMD("pre_start")
{
    if (populating.joinable()) throw BadCall("already populating");
    bool fb = a.flag();
    auto hex = a.next();
    populating = std::thread([hex, fb] { auto k = rpc::makeP(hex, fb); PrecomputeBufferContext::populate(*k); });
} END;
CMD("pre_stop") { PrecomputeBufferContext::stop_populate(); } END;
CMD("pre_join") { if (populating.joinable()) populating.join(); } END;
CMD("pre_size") { o.u64(PrecomputeBufferContext::get_current_queue_size()); o.u64(PrecomputeBufferContext::get_max_queue_size()); } END;
CMD("pre_empty") { PrecomputeBufferContext::empty_queues(); } END;
CMD("pre_triple")
{
    auto t = PrecomputeBufferContext::getTriple();
    o.flag(t != nullptr);
    if (t) { o.Q(*t->get_exp()); o.P(*t->get_g_to_exp()); o.P(*t->get_pubkey_to_exp()); }
} END;
CMD("pre_tq")
{
    auto t = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
    o.flag(t != nullptr);
    if (t) {
        for (auto &x : {t->get_triple1(), t->get_triple2()}) { o.Q(*x->get_exp()); o.P(*x->get_g_to_exp()); o.P(*x->get_pubkey_to_exp()); }
        auto q = t->get_quad();
        o.Q(*q->get_exp1()); o.Q(*q->get_exp2()); o.P(*q->get_g_to_exp1()); o.P(*q->get_g_to_exp2_mult_by_pubkey_to_exp1());
    }
} END;
