// Programs over live objects: every operation works on objects by reference, its result becomes a new object, and after
// every operation the content of all objects there are is compared with their content when they were made.
#include "rpc.hpp"
#include "electionguard/nonces.hpp"
using namespace rpc;

namespace
{
    template <class T> struct Bag {
        vector<unique_ptr<T>> v;
        T &operator[](const string &i) { return *v.at(std::stoull(i)); }
    };
    struct World {
        Bag<ElementModP> p;
        Bag<ElementModQ> q;
        Bag<ElGamalCiphertext> c;
        Bag<HashedElGamalCiphertext> h;
        Bag<DisjunctiveChaumPedersenProof> d;
        Bag<ConstantChaumPedersenProof> k;
    };
    string show(ElementModP &x) { Out o; o.P(x); return o.s.substr(1) + (x.isFixedBase() ? "f" : ""); }
    string show(ElementModQ &x) { Out o; o.Q(x); return o.s.substr(1); }
    string show(ElGamalCiphertext &x) { return show(*x.getPad()) + "/" + show(*x.getData()); }
    string show(HashedElGamalCiphertext &x)
    {
        Out o;
        o.P(*x.getPad()); o.bytes(x.getData()); o.bytes(x.getMac());
        for (auto &ch : o.s) if (ch == '\t') ch = '/';
        return o.s.substr(1);
    }
    string show(DisjunctiveChaumPedersenProof &x)
    {
        Out o;
        o.P(x.getProofZeroPad()); o.P(x.getProofZeroData()); o.P(x.getProofOnePad()); o.P(x.getProofOneData());
        o.Q(x.getProofZeroChallenge()); o.Q(x.getProofOneChallenge()); o.Q(x.getChallenge());
        o.Q(x.getProofZeroResponse()); o.Q(x.getProofOneResponse());
        for (auto &ch : o.s) if (ch == '\t') ch = '/';
        return o.s.substr(1);
    }
    string show(ConstantChaumPedersenProof &x)
    {
        Out o;
        o.P(x.getPad()); o.P(x.getData()); o.Q(x.getChallenge()); o.Q(x.getResponse()); o.u64(x.getConstant());
        for (auto &ch : o.s) if (ch == '\t') ch = '/';
        return o.s.substr(1);
    }
    template <class T> void content(Bag<T> &b, char tag, vector<std::pair<string, string>> &out)
    {
        for (size_t i = 0; i < b.v.size(); i++) out.emplace_back(tag + std::to_string(i), show(*b.v[i]));
    }
    std::map<string, string> content(World &w)
    {
        vector<std::pair<string, string>> v;
        content(w.p, 'p', v); content(w.q, 'q', v); content(w.c, 'c', v); content(w.h, 'h', v); content(w.d, 'd', v); content(w.k, 'k', v);
        return {v.begin(), v.end()};
    }
    template <class T> string put(Bag<T> &b, unique_ptr<T> x)
    {
        b.v.push_back(std::move(x));
        return show(*b.v.back());
    }
    string flag(bool b) { return b ? "1" : "0"; }
    string step(World &w, const vector<string> &t, string &mayChange)
    {
        const string &n = t[0];
        auto hex = [](const vector<uint8_t> &x) { Out o; o.bytes(x); return o.s.substr(1); };
        if (n == "P") return put(w.p, makeP(t[1], t.size() > 2));
        if (n == "Q") return put(w.q, makeQ(t[1]));
        if (n == "fix") { w.p[t[1]].setIsFixedBase(t[2] == "1"); mayChange = "p" + t[1]; return show(w.p[t[1]]); }
        if (n == "clonep") return put(w.p, w.p[t[1]].clone());
        if (n == "cloneq") return put(w.q, w.q[t[1]].clone());
        if (n == "addp") return put(w.p, add_mod_p(w.p[t[1]], w.p[t[2]]));
        if (n == "mulp") return put(w.p, mul_mod_p(w.p[t[1]], w.p[t[2]]));
        if (n == "mulv") {
            vector<ElementModPOrQ> v;
            for (auto &i : split(t[1], ',')) {
                if (i[0] == 'p') v.push_back(&w.p[i.substr(1)]);
                else v.push_back(&w.q[i.substr(1)]);
            }
            return put(w.p, mul_mod_p(v));
        }
        if (n == "modp") return put(w.p, mod_p(w.p[t[1]]));
        if (n == "powp") return put(w.p, pow_mod_p(w.p[t[1]], w.p[t[2]]));
        if (n == "powq") return put(w.p, pow_mod_p(w.p[t[1]], w.q[t[2]]));
        if (n == "gq") return put(w.p, g_pow_p(w.q[t[1]]));
        if (n == "qtop") return put(w.p, w.q[t[1]].toElementModP());
        if (n == "addq") return put(w.q, add_mod_q(w.q[t[1]], w.q[t[2]]));
        if (n == "addv") {
            vector<std::reference_wrapper<ElementModQ>> v;
            for (auto &i : split(t[1], ',')) v.push_back(w.q[i]);
            return put(w.q, add_mod_q(v));
        }
        if (n == "subq") return put(w.q, sub_mod_q(w.q[t[1]], w.q[t[2]]));
        if (n == "apbc") return put(w.q, a_plus_bc_mod_q(w.q[t[1]], w.q[t[2]], w.q[t[3]]));
        if (n == "subf") return put(w.q, sub_from_q(w.q[t[1]]));
        if (n == "cmpp") return flag(w.p[t[1]] == w.p[t[2]]) + flag(w.p[t[1]] < w.p[t[2]]) + flag(w.p[t[1]].isInBounds());
        if (n == "cmpq") return flag(w.q[t[1]] == w.q[t[2]]) + flag(w.q[t[1]] < w.q[t[2]]) + flag(w.q[t[1]].isInBounds());
        if (n == "resid") return flag(w.p[t[1]].isValidResidue());
        if (n == "hexp") return w.p[t[1]].toHex() + "/" + hex(w.p[t[1]].toBytes());
        if (n == "hexq") return w.q[t[1]].toHex() + "/" + hex(w.q[t[1]].toBytes());
        if (n == "hash") {
            vector<CryptoHashableType> v;
            for (size_t i = 1; i < t.size(); i++) {
                string k = t[i].substr(1);
                if (t[i][0] == 'p') v.push_back(&w.p[k]);
                else if (t[i][0] == 'q') v.push_back(&w.q[k]);
                else if (t[i][0] == 'c') v.push_back(static_cast<CryptoHashable *>(&w.c[k]));
                else v.push_back(static_cast<CryptoHashable *>(&w.h[k]));
            }
            return put(w.q, hash_elems(v));
        }
        if (n == "nonce") {
            Nonces x(w.q[t[1]], NoncesHeaderType(&w.q[t[2]]));
            return put(w.q, x.get(std::stoull(t[3])));
        }
        if (n == "enc") return put(w.c, elgamalEncrypt(std::stoull(t[1]), w.q[t[2]], w.p[t[3]]));
        if (n == "cadd") {
            vector<std::reference_wrapper<ElGamalCiphertext>> v;
            for (auto &i : split(t[1], ',')) v.push_back(w.c[i]);
            return put(w.c, elgamalAdd(v));
        }
        if (n == "dec") return std::to_string(w.c[t[1]].decrypt(w.q[t[2]]));
        if (n == "henc") {
            auto s = unhex(t[1]);
            return put(w.h, hashedElgamalEncrypt(vector<uint8_t>(s.begin(), s.end()), w.q[t[2]], w.p[t[3]], w.q[t[4]], (padded_data_size_t)std::stoull(t[5]), false));
        }
        if (n == "hdec") return hex(w.h[t[1]].decrypt(w.q[t[2]], w.q[t[3]], true));
        if (n == "dmake") return put(w.d, DisjunctiveChaumPedersenProof::make(w.c[t[1]], w.q[t[2]], w.p[t[3]], w.q[t[4]], w.q[t[5]], std::stoull(t[6])));
        if (n == "dvalid") return flag(w.d[t[1]].isValid(w.c[t[2]], w.p[t[3]], w.q[t[4]]));
        if (n == "cmake") return put(w.k, ConstantChaumPedersenProof::make(w.c[t[1]], w.q[t[2]], w.p[t[3]], w.q[t[5]], w.q[t[4]], std::stoull(t[6])));
        if (n == "cvalid") return flag(w.k[t[1]].isValid(w.c[t[2]], w.p[t[3]], w.q[t[4]]));
        throw BadCall("prog op " + n);
    }
} // namespace

// prog op op ...: one answer per op; the answer of an op that changed an object it was not to change has that appended
CMD("prog")
{
    World w;
    auto before = content(w);
    while (a.more()) {
        auto t = split(a.next(), ':');
        string r, may;
        try {
            r = step(w, t, may);
        } catch (BadCall &) {
            throw;
        } catch (std::exception &e) {
            r = "ex";
        }
        auto now = content(w);
        for (auto &x : before)
            if (x.first != may && now.at(x.first) != x.second) r += " CHANGED " + x.first + " " + x.second.substr(0, 80) + " -> " + now.at(x.first).substr(0, 80);
        before = std::move(now);
        o.raw(r);
    }
} END;
