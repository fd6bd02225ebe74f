// Election objects in the driver: built from and dumped to the harness' own JSON, through constructors and getters only.
#pragma once
#include "rpc.hpp"
#include "electionguard/ballot.hpp"
#include "electionguard/ballot_code.hpp"
#include "electionguard/ballot_compact.hpp"
#include "electionguard/election.hpp"
#include "electionguard/encrypt.hpp"
#include "electionguard/manifest.hpp"
#include <nlohmann/json.hpp>

namespace obj
{
    using namespace electionguard;
    using nlohmann::json;
    using rpc::Args;
    using rpc::Out;
    using std::string;
    using std::unique_ptr;
    using std::vector;

    // registries: objects by name; a worker thread of "par" keeps its own and reads the shared ones
    template <class T> std::map<string, unique_ptr<T>> &shared()
    {
        static std::map<string, unique_ptr<T>> m;
        return m;
    }
    template <class T> std::map<string, unique_ptr<T>> &reg()
    {
        static thread_local std::map<string, unique_ptr<T>> m;
        return rpc::inWorker ? m : shared<T>();
    }
    template <class T> T &get(const string &n)
    {
        auto it = reg<T>().find(n);
        if (it != reg<T>().end())
            return *it->second;
        it = shared<T>().find(n);
        if (it == shared<T>().end())
            throw rpc::BadCall("no object " + n);
        return *it->second;
    }

    string phex(const ElementModP *e);
    string qhex(const ElementModQ *e);
    json jp(const ElementModP *e);
    json jq(const ElementModQ *e);

    unique_ptr<Manifest> buildManifest(const json &j);
    unique_ptr<ContactInformation> buildContact(const json &j);
    unique_ptr<InternationalizedText> buildText(const json &j);
    unique_ptr<ContestDescription> buildContest(const json &j);
    unique_ptr<GeopoliticalUnit> buildGp(const json &j);
    unique_ptr<Party> buildParty(const json &j);
    unique_ptr<Candidate> buildCand(const json &j);
    unique_ptr<BallotStyle> buildStyle(const json &j);
    unique_ptr<DisjunctiveChaumPedersenProof> buildDisj(const json &j);
    unique_ptr<ConstantChaumPedersenProof> buildConst(const json &j);
    unique_ptr<HashedElGamalCiphertext> buildHashed(const json &j);
    unique_ptr<ElGamalCiphertext> buildPair(const json &j);
    json jt(const InternationalizedText *t);
    json jc(const ContactInformation *c);
    json js(const SelectionDescription &s);
    json jgp(const GeopoliticalUnit &g);
    json jparty(const Party &p);
    json jcand(const Candidate &c);
    json jstyle(const BallotStyle &s);
    json jproof(const DisjunctiveChaumPedersenProof *p);
    json jconst(const ConstantChaumPedersenProof *p);
    json jhashed(const HashedElGamalCiphertext &h);
    json dumpManifest(const Manifest &m);
    json dumpInternal(const InternalManifest &m);
    json dumpContest(const ContestDescription &c);
    json dumpContestP(const ContestDescriptionWithPlaceholders &c);
    json dumpContext(const CiphertextElectionContext &c);
    json dumpDevice(const EncryptionDevice &d);
    unique_ptr<PlaintextBallot> buildPlain(const json &j);
    unique_ptr<PlaintextBallotContest> buildPlainContest(const json &j);
    unique_ptr<PlaintextBallotSelection> buildPlainSelection(const json &j);
    json dumpPlain(const PlaintextBallot &b);
    json dumpSel(CiphertextBallotSelection &s);
    json dumpCont(CiphertextBallotContest &c);
    json dumpCipher(const CiphertextBallot &b);
    unique_ptr<CiphertextBallotSelection> buildSel(const json &j);
    unique_ptr<CiphertextBallotContest> buildCont(const json &j);
    unique_ptr<CiphertextBallot> buildCipher(const json &j);
    json dumpCompactPlain(const CompactPlaintextBallot &b);
    json dumpCompactCipher(const CompactCiphertextBallot &b);
    unique_ptr<CompactPlaintextBallot> buildCompactPlain(const json &j);
    unique_ptr<CompactCiphertextBallot> buildCompactCipher(const json &j);
    string dumps(const json &j); // never throws on invalid UTF-8
} // namespace obj
