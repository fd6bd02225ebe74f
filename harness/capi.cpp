// Untyped caller of the C interface: ccall fn ret token...
// Tokens: H:name handle; N null; OH:name output handle; U:n integer; S:hex C string in an allocation of its own size;
// OS[:n] char** output (n: borrowed); OU OB OI outputs; D:hex bytes in an allocation of their own size; OD uint8_t** output,
// its length is the OU that follows; L:hex,hex list of C strings; HA:name,name list of handles; A:limbs n:hex; OL uint64_t** output.
#include "rpc.hpp"
#include <cstring>
#include <dlfcn.h>
using rpc::BadCall;
using rpc::string;
using rpc::vector;

namespace
{
    constexpr uint64_t SENTINEL = 0x5e5e5e5e5e5e5e58ull;
    std::map<string, uint64_t> handles;
    string hexOf(const uint8_t *p, size_t n)
    {
        static const char *d = "0123456789abcdef";
        string r;
        for (size_t i = 0; i < n; i++) {
            r += d[p[i] >> 4];
            r += d[p[i] & 15];
        }
        return r;
    }
    char *cstr(const string &hex)
    {
        auto s = rpc::unhex(hex);
        char *p = (char *)malloc(s.size() + 1);
        memcpy(p, s.data(), s.size());
        p[s.size()] = 0;
        return p;
    }
    using F = uint64_t (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t,
                           uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
#if defined(__clang__)
    __attribute__((no_sanitize("undefined")))
#endif
    uint64_t
    invoke(void *f, const uint64_t *v)
    {
        return ((F)f)(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]);
    }
    void *sym(const string &name)
    {
        void *f = dlsym(RTLD_DEFAULT, name.c_str());
        if (!f) throw BadCall("no function " + name);
        return f;
    }
    uint64_t handle(const string &n)
    {
        auto it = handles.find(n);
        if (it == handles.end()) throw BadCall("no handle " + n);
        return it->second;
    }
    struct Slot {
        char kind;
        string name;
        uint64_t v = SENTINEL;
    };
    struct Guard { // frees what the caller passed, as a C caller would
        vector<void *> p;
        ~Guard()
        {
            for (auto *x : p) free(x);
        }
    };
} // namespace

CMD("ccall")
{
    auto fn = a.next();
    char ret = a.next()[0];
    void *f = sym(fn);
    uint64_t v[18] = {};
    size_t n = 0;
    vector<Slot> outs;
    outs.reserve(18);
    Guard g;
    while (a.more()) {
        if (n == 18) throw BadCall("too many arguments");
        auto t = a.next();
        auto c = t.find(':');
        auto k = t.substr(0, c), r = c == string::npos ? string() : t.substr(c + 1);
        if (k == "H") v[n] = handle(r);
        else if (k == "N") v[n] = 0;
        else if (k == "U") v[n] = std::stoull(r);
        else if (k == "S") {
            auto *p = cstr(r);
            g.p.push_back(p);
            v[n] = (uint64_t)p;
        } else if (k == "D") {
            auto s = rpc::unhex(r);
            auto *p = malloc(s.size() ? s.size() : 1);
            memcpy(p, s.data(), s.size());
            g.p.push_back(p);
            v[n] = (uint64_t)p;
        } else if (k == "A") {
            auto c2 = r.find(':');
            size_t len = std::stoul(r.substr(0, c2));
            auto h = string(len * 16 - (r.size() - c2 - 1), '0') + r.substr(c2 + 1);
            auto *p = (uint64_t *)malloc(len * 8);
            for (size_t i = 0; i < len; i++) p[len - 1 - i] = std::stoull(h.substr(i * 16, 16), nullptr, 16);
            g.p.push_back(p);
            v[n] = (uint64_t)p;
        } else if (k == "L" || k == "HA") {
            auto items = r.empty() ? vector<string>() : rpc::split(r, ',');
            auto *p = (uint64_t *)malloc(items.size() * 8 + (items.empty() ? 1 : 0));
            g.p.push_back(p);
            for (size_t i = 0; i < items.size(); i++) {
                if (k == "HA") p[i] = handle(items[i]);
                else {
                    auto *s = cstr(items[i] == "-" ? string() : items[i]);
                    g.p.push_back(s);
                    p[i] = (uint64_t)s;
                }
            }
            v[n] = (uint64_t)p;
        } else if (k == "OH" || k == "OS" || k == "OU" || k == "OB" || k == "OI" || k == "OD" || k == "OL") {
            outs.push_back(Slot{k[1], r});
            v[n] = (uint64_t)&outs.back().v;
        } else throw BadCall("token " + t);
        n++;
    }
    uint64_t res = invoke(f, v);
    o.u64(ret == 's' || ret == 'e' ? (res & 0xffffffffu) : ret == 'b' ? (res & 0xff) : res);
    bool ok = ret != 's' || (res & 0xffffffffu) == 0;
    for (size_t i = 0; i < outs.size(); i++) {
        auto &s = outs[i];
        bool set = s.v != SENTINEL;
        if (!ok) { // what a caller that ignores the status would see
            o.raw(s.kind == 'U' || s.kind == 'B' || s.kind == 'I' ? "-" : set ? (s.v ? "set" : "null") : "-");
            continue;
        }
        if (s.kind == 'B') o.u64(s.v & 0xff);
        else if (s.kind == 'I') o.u64(s.v & 0xffffffffu);
        else if (s.kind == 'U') o.raw(set ? std::to_string(s.v) : "-");
        else if (!set) o.raw("-");
        else if (!s.v) o.raw("null");
        else if (s.kind == 'H') {
            handles[s.name] = s.v;
            o.raw("set");
        } else if (s.kind == 'S') {
            auto *p = (char *)s.v;
            o.raw("x" + hexOf((uint8_t *)p, strlen(p)));
            if (s.name != "n") { uint64_t w[18] = {s.v}; invoke(sym("eg_free_int_ptr"), w); }
        } else if (s.kind == 'D') {
            if (i + 1 >= outs.size() || outs[i + 1].kind != 'U') throw BadCall("length");
            o.raw("x" + hexOf((uint8_t *)s.v, outs[i + 1].v));
            uint64_t w[18] = {s.v};
            invoke(sym(s.name.empty() ? "eg_delete_int_ptr" : s.name), w);
        } else if (s.kind == 'L') {
            string h;
            char b[20];
            for (size_t j = outs[i + 1].v; j-- > 0;) {
                snprintf(b, sizeof b, "%016llx", (unsigned long long)((uint64_t *)s.v)[j]);
                h += b;
            }
            o.raw("x" + h);
        }
    }
} END;
// cforget name: the handle has been freed
CMD("cforget") { handles.erase(a.next()); } END;
CMD("chandles") { o.u64(handles.size()); } END;
// csym name: 1 when the function can be linked
CMD("csym") { o.flag(dlsym(RTLD_DEFAULT, a.next().c_str()) != nullptr); } END;
