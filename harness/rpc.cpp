#include "rpc.hpp"

#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <iostream>
#include <typeinfo>
#include <unistd.h>

namespace rpc
{
    std::map<string, Fn> &commands()
    {
        static std::map<string, Fn> m;
        return m;
    }
    static int hv(char c)
    {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'f')
            return c - 'a' + 10;
        if (c >= 'A' && c <= 'F')
            return c - 'A' + 10;
        throw BadCall("bad hex");
    }
    string unhex(const string &h)
    {
        string r;
        r.reserve(h.size() / 2);
        for (size_t i = 0; i + 1 < h.size(); i += 2)
            r += (char)(hv(h[i]) * 16 + hv(h[i + 1]));
        return r;
    }
    static string hexs(const uint8_t *p, size_t n)
    {
        static const char *d = "0123456789abcdef";
        string r;
        r.reserve(2 * n);
        for (size_t i = 0; i < n; i++) {
            r += d[p[i] >> 4];
            r += d[p[i] & 15];
        }
        return r;
    }
    template <size_t N> static void limbs(const string &h, uint64_t (&out)[N])
    {
        memset(out, 0, sizeof(out));
        if (h.size() > N * 16)
            throw BadCall("value too wide");
        size_t nib = 0;
        for (size_t i = h.size(); i-- > 0; nib++)
            out[nib / 16] |= (uint64_t)hv(h[i]) << (4 * (nib % 16));
    }
    template <size_t N> static string unlimbs(const uint64_t *p)
    {
        string r;
        char b[20];
        for (size_t i = N; i-- > 0;) {
            snprintf(b, sizeof b, "%016llx", (unsigned long long)p[i]);
            r += b;
        }
        return r;
    }
    unique_ptr<ElementModP> makeP(const string &hex, bool fixedBase)
    {
        uint64_t l[MAX_P_LEN];
        limbs(hex, l);
        return std::make_unique<ElementModP>(l, true, fixedBase);
    }
    unique_ptr<ElementModQ> makeQ(const string &hex)
    {
        uint64_t l[MAX_Q_LEN];
        limbs(hex, l);
        return std::make_unique<ElementModQ>(l, true);
    }
    vector<string> split(const string &s, char c)
    {
        vector<string> r;
        size_t p = 0;
        for (;;) {
            size_t q = s.find(c, p);
            if (q == string::npos) {
                r.push_back(s.substr(p));
                return r;
            }
            r.push_back(s.substr(p, q - p));
            p = q + 1;
        }
    }
    string Args::blob() { return unhex(next()); }
    vector<uint8_t> Args::bytes()
    {
        auto s = blob();
        return vector<uint8_t>(s.begin(), s.end());
    }
    unique_ptr<ElementModP> Args::P(bool fixedBase) { return makeP(next(), fixedBase); }
    unique_ptr<ElementModQ> Args::Q() { return makeQ(next()); }
    void Out::blob(const string &x) { raw(hexs((const uint8_t *)x.data(), x.size())); }
    void Out::bytes(const vector<uint8_t> &x) { raw(hexs(x.data(), x.size())); }
    void Out::P(const ElementModP *e) { raw(e ? unlimbs<MAX_P_LEN>(e->get()) : "-"); }
    void Out::Q(const ElementModQ *e) { raw(e ? unlimbs<MAX_Q_LEN>(e->get()) : "-"); }
} // namespace rpc

thread_local bool rpc::inWorker = false;
using namespace rpc;

static string demangle(const char *n)
{
    int st = 0;
    char *d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    string r = d ? d : n;
    free(d);
    return r;
}

string rpc::answer(const string &line)
{
    Args a;
    a.v = split(line, '\t');
    Out o;
    string res;
    auto it = commands().find(a.v[0]);
    if (it == commands().end()) {
        res = "bad\tunknown command " + a.v[0];
    } else {
        try {
            it->second(a, o);
            res = "ok" + o.s;
        } catch (const BadCall &e) {
            res = string("bad\t") + e.what();
        } catch (const std::exception &e) {
            Out w;
            w.blob(e.what());
            res = "ex\t" + demangle(typeid(e).name()) + w.s;
        } catch (const char *e) {
            Out w;
            w.blob(e);
            res = "ex\tchar const*" + w.s;
        } catch (...) {
            res = "ex\tunknown\t";
        }
    }
    return res;
}

int main(int argc, char **argv)
{
    // keep the answer channel away from the library's own console output
    int answers = dup(1);
    const char *logf = getenv("EGDRV_LOG");
    int lf = open(logf ? logf : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0600);
    dup2(lf, 1);
    close(lf);
    FILE *out = fdopen(answers, "w");
    static char obuf[1 << 16];
    setvbuf(out, obuf, _IOFBF, sizeof obuf);
    std::ios::sync_with_stdio(false);
    string line;
    while (std::getline(std::cin, line)) {
        if (line.empty())
            continue;
        if (line == "quit")
            break;
        string res = answer(line);
        fputs(res.c_str(), out);
        fputc('\n', out);
        fflush(out);
    }
    fflush(out);
    fflush(stdout);
    commands().clear();
    return 0;
}
