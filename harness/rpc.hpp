// RPC driver: one command per line on stdin, tab separated; one answer per line on the original stdout.
#pragma once
#include "electionguard/chaum_pedersen.hpp"
#include "electionguard/elgamal.hpp"
#include "electionguard/group.hpp"
#include "electionguard/hash.hpp"
#include "electionguard/hmac.hpp"
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace rpc
{
    using std::string;
    using std::unique_ptr;
    using std::vector;
    using namespace electionguard;

    struct BadCall : std::logic_error {
        using std::logic_error::logic_error;
    };

    struct Args {
        vector<string> v;
        size_t i = 1;
        bool more() const { return i < v.size(); }
        const string &next()
        {
            if (i >= v.size())
                throw BadCall("missing argument of " + v[0]);
            return v[i++];
        }
        uint64_t u64() { return std::stoull(next()); }
        bool flag() { return next() == "1"; }
        string blob();
        vector<uint8_t> bytes();
        unique_ptr<ElementModP> P(bool fixedBase = false);
        unique_ptr<ElementModQ> Q();
    };

    struct Out {
        string s;
        void raw(const string &x)
        {
            s += '\t';
            s += x;
        }
        void u64(uint64_t x) { raw(std::to_string(x)); }
        void flag(bool b) { raw(b ? "1" : "0"); }
        void blob(const string &x);
        void bytes(const vector<uint8_t> &x);
        void P(const ElementModP *e); // limbs read with get(), "-" if null
        void P(const ElementModP &e) { P(&e); }
        void Q(const ElementModQ *e);
        void Q(const ElementModQ &e) { Q(&e); }
    };

    using Fn = std::function<void(Args &, Out &)>;
    std::map<string, Fn> &commands();
    struct Reg {
        Reg(const char *name, Fn f) { commands()[name] = std::move(f); }
    };
    extern thread_local bool inWorker; // set in the worker threads of "par"
    string answer(const string &line); // runs one command line
    string unhex(const string &h);
    unique_ptr<ElementModP> makeP(const string &hex, bool fixedBase = false);
    unique_ptr<ElementModQ> makeQ(const string &hex);
    vector<string> split(const string &s, char c);
} // namespace rpc

#define RPC_CAT2(a, b) a##b
#define RPC_CAT(a, b) RPC_CAT2(a, b)
#define CMD(name) static rpc::Reg RPC_CAT(reg_, __LINE__)(name, [](rpc::Args & a, rpc::Out & o)
#define END )
