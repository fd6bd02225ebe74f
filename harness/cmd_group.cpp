#include "rpc.hpp"
using namespace rpc;

CMD("ping") { o.raw("pong"); } END;
CMD("const")
{
    o.P(P()); o.Q(Q()); o.P(R()); o.P(G());
    o.P(ZERO_MOD_P()); o.P(ONE_MOD_P()); o.P(TWO_MOD_P());
    o.Q(ZERO_MOD_Q()); o.Q(ONE_MOD_Q()); o.Q(TWO_MOD_Q());
} END;
CMD("addp") { auto x = a.P(), y = a.P(); o.P(*add_mod_p(*x, *y)); } END;
CMD("mulp") { auto x = a.P(), y = a.P(); o.P(*mul_mod_p(*x, *y)); } END;
CMD("mulpv")
{
    vector<unique_ptr<ElementModP>> ps;
    vector<unique_ptr<ElementModQ>> qs;
    vector<ElementModPOrQ> v;
    while (a.more()) {
        string t = a.next();
        if (t[0] == '=') v.push_back(v.at(std::stoul(t.substr(1), nullptr, 16)));
        else if (t[0] == 'P') { ps.push_back(makeP(t.substr(1))); v.push_back(ps.back().get()); }
        else { qs.push_back(makeQ(t.substr(1))); v.push_back(qs.back().get()); }
    }
    o.P(*mul_mod_p(v));
} END;
// both operands are the same object
CMD("self1")
{
    auto op = a.next();
    if (op == "addp") { auto x = a.P(); o.P(*add_mod_p(*x, *x)); }
    else if (op == "mulp") { auto x = a.P(); o.P(*mul_mod_p(*x, *x)); }
    else if (op == "powpp") { auto x = a.P(); o.P(*pow_mod_p(*x, *x)); }
    else if (op == "addq") { auto x = a.Q(); o.Q(*add_mod_q(*x, *x)); }
    else if (op == "subq") { auto x = a.Q(); o.Q(*sub_mod_q(*x, *x)); }
    else if (op == "apbc") { auto x = a.Q(); o.Q(*a_plus_bc_mod_q(*x, *x, *x)); }
    else throw rpc::BadCall("op");
} END;
CMD("modp") { auto x = a.P(); o.P(*mod_p(*x)); } END;
CMD("powpp") { bool f = a.flag(); auto x = a.P(f); auto e = a.P(); o.P(*pow_mod_p(*x, *e)); } END;
CMD("powpq") { bool f = a.flag(); auto x = a.P(f); auto e = a.Q(); o.P(*pow_mod_p(*x, *e)); } END;
CMD("gpowp") { auto e = a.P(); o.P(*g_pow_p(*e)); } END;
CMD("gpowq") { auto e = a.Q(); o.P(*g_pow_p(*e)); } END;
CMD("addq") { auto x = a.Q(), y = a.Q(); o.Q(*add_mod_q(*x, *y)); } END;
CMD("addqv")
{
    vector<unique_ptr<ElementModQ>> qs;
    vector<std::reference_wrapper<ElementModQ>> v;
    while (a.more()) {
        string t = a.next();
        if (t[0] == '=') v.push_back(v.at(std::stoul(t.substr(1), nullptr, 16)));
        else { qs.push_back(makeQ(t)); v.push_back(*qs.back()); }
    }
    o.Q(*add_mod_q(v));
} END;
CMD("subq") { auto x = a.Q(), y = a.Q(); o.Q(*sub_mod_q(*x, *y)); } END;
CMD("apbc") { auto x = a.Q(), y = a.Q(), z = a.Q(); o.Q(*a_plus_bc_mod_q(*x, *y, *z)); } END;
CMD("subfromq") { auto x = a.Q(); o.Q(*sub_from_q(*x)); } END;
CMD("qtop") { auto x = a.Q(); o.P(*x->toElementModP()); } END;

// encodings
CMD("p_enc")
{
    auto x = a.P();
    o.raw(x->toHex()); o.bytes(x->toBytes()); o.raw(x->toHex()); o.u64(x->length());
} END;
CMD("q_enc")
{
    auto x = a.Q();
    o.raw(x->toHex()); o.bytes(x->toBytes()); o.raw(x->toHex()); o.u64(x->length());
} END;
CMD("p_fromhex") { auto s = a.blob(); bool u = a.flag(); o.P(*ElementModP::fromHex(s, u)); } END;
CMD("q_fromhex") { auto s = a.blob(); bool u = a.flag(); o.Q(*ElementModQ::fromHex(s, u)); } END;
CMD("p_fromu64") { auto n = a.u64(); bool u = a.flag(); o.P(*ElementModP::fromUint64(n, u)); } END;
CMD("q_fromu64") { auto n = a.u64(); bool u = a.flag(); o.Q(*ElementModQ::fromUint64(n, u)); } END;
CMD("p_frombytes") { auto b = a.bytes(); bool u = a.flag(); o.P(*bytes_to_p(b, u)); } END;
CMD("q_frombytes") { auto b = a.bytes(); bool u = a.flag(); o.Q(*bytes_to_q(b, u)); } END;
CMD("p_frombytesptr")
{
    auto b = a.bytes(); bool u = a.flag();
    unique_ptr<uint8_t[]> p(new uint8_t[b.size()]);
    std::copy(b.begin(), b.end(), p.get());
    o.P(*bytes_to_p(p.get(), b.size(), u));
} END;
CMD("q_frombytesptr")
{
    auto b = a.bytes(); bool u = a.flag();
    unique_ptr<uint8_t[]> p(new uint8_t[b.size()]);
    std::copy(b.begin(), b.end(), p.get());
    o.Q(*bytes_to_q(p.get(), b.size(), u));
} END;
// limbs, least significant first, comma separated hexadecimals ("" for none)
static vector<uint64_t> limbsarg(const string &s)
{
    vector<uint64_t> r;
    if (s.empty()) return r;
    for (auto &x : split(s, ',')) r.push_back(std::stoull(x, nullptr, 16));
    return r;
}
CMD("p_fromvec") { auto v = limbsarg(a.next()); bool u = a.flag(); ElementModP e(v, u); o.P(e); } END;
CMD("q_fromvec") { auto v = limbsarg(a.next()); bool u = a.flag(); ElementModQ e(v, u); o.Q(e); } END;
CMD("p_fromarr")
{
    auto v = limbsarg(a.next()); bool u = a.flag();
    uint64_t arr[MAX_P_LEN] = {}; std::copy(v.begin(), v.end(), arr);
    ElementModP e(arr, u); o.P(e);
} END;
CMD("q_fromarr")
{
    auto v = limbsarg(a.next()); bool u = a.flag();
    uint64_t arr[MAX_Q_LEN] = {}; std::copy(v.begin(), v.end(), arr);
    ElementModQ e(arr, u); o.Q(e);
} END;
CMD("p_cmp")
{
    auto x = a.P(), y = a.P();
    o.flag(*x == *y); o.flag(*x != *y); o.flag(*x < *y); o.flag(*y < *x);
} END;
CMD("q_cmp")
{
    auto x = a.Q(), y = a.Q();
    o.flag(*x == *y); o.flag(*x != *y); o.flag(*x < *y); o.flag(*y < *x);
} END;
CMD("p_bounds") { auto x = a.P(); o.flag(x->isInBounds()); } END;
CMD("q_bounds") { auto x = a.Q(); o.flag(x->isInBounds()); } END;
CMD("p_residue") { bool f = a.flag(); auto x = a.P(f); o.flag(x->isValidResidue()); } END;
CMD("rand_q") { for (auto n = a.u64(); n-- > 0;) o.Q(*rand_q()); } END;
CMD("rand_p") { for (auto n = a.u64(); n-- > 0;) o.P(*rand_p()); } END;
// q_life value how...: an element put through its life; ends destroyed
CMD("q_life")
{
    auto e = a.Q();
    while (a.more()) {
        auto h = a.next();
        if (h == "clone") e = e->clone();
        else if (h == "copy") e = std::make_unique<ElementModQ>(*e);
        else if (h == "assign") { auto f = ElementModQ::fromUint64(1); *f = *e; e = std::move(f); }
        else if (h == "overwrite") { auto f = ElementModQ::fromUint64(7); *e = *f; }
        else if (h == "hexed") e = ElementModQ::fromHex(e->toHex(), true);
        else if (h == "add") e = add_mod_q(*e, ZERO_MOD_Q());
        else if (h == "sub") e = sub_mod_q(*e, ZERO_MOD_Q());
        else if (h == "throw") throw std::runtime_error("on purpose");
        else throw BadCall("life");
    }
} END;
CMD("p_life")
{
    auto e = a.P();
    while (a.more()) {
        auto h = a.next();
        if (h == "clone") e = e->clone();
        else if (h == "copy") e = std::make_unique<ElementModP>(*e);
        else if (h == "assign") { auto f = ElementModP::fromUint64(1); *f = *e; e = std::move(f); }
        else if (h == "overwrite") { auto f = ElementModP::fromUint64(7); *e = *f; }
        else if (h == "hexed") e = ElementModP::fromHex(e->toHex(), true);
        else if (h == "mul") e = mul_mod_p(*e, ONE_MOD_P());
        else if (h == "throw") throw std::runtime_error("on purpose");
        else throw BadCall("life");
    }
} END;
CMD("key_life")
{
    auto s = a.Q();
    auto k = ElGamalKeyPair::fromSecret(*s, a.flag());
    s.reset();
    while (a.more()) {
        auto h = a.next();
        if (h == "copy") k = std::make_unique<ElGamalKeyPair>(*k);
        else if (h == "throw") throw std::runtime_error("on purpose");
        else throw BadCall("life");
    }
} END;
