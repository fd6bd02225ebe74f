// Entropy-source monitor: every request to the operating system's generator made in this process is counted, and can
// be made to fail, fall short, or deliver a chosen stream.
#include "rpc.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <electionguard/group.hpp>
#include <fcntl.h>
#include <mutex>
#include <set>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace electionguard;

namespace
{
    std::mutex mu;
    std::set<int> fds;
    uint64_t events = 0, delivered = 0, faults = 0, largest = 0;
    uint64_t at = 0;      // fault at this event, 0: never
    bool persist = false; // and at all later ones
    std::string kind = "fail";
    bool chosen = false; // deterministic stream
    uint64_t seed = 0, pos = 0;
    int64_t flip = -1;
    bool frozen = false;
    time_t now = 0;

    template <class F> F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
    uint8_t stream(uint64_t j)
    {
        uint64_t z = seed * 0x9E3779B97F4A7C15ull + j * 0xBF58476D1CE4E5B9ull + 1;
        for (int i = 0; i < 3; i++) z = (z ^ (z >> 30)) * 0x94D049BB133111EBull + 7;
        return (uint8_t)(z >> 56) ^ (int64_t(j) == flip ? 1 : 0);
    }
    bool hit() { return at && (events == at || (persist && events > at)); }

    // one request for n bytes: what to answer
    template <class Real> ssize_t request(void *buf, size_t n, Real real)
    {
        std::lock_guard<std::mutex> l(mu);
        events++;
        if (n > largest) largest = n;
        if (hit()) {
            faults++;
            if (kind == "fail") { errno = EIO; return -1; }
            if (kind == "intr") { errno = EINTR; return -1; }
            if (kind == "again") { errno = EAGAIN; return -1; }
            if (kind == "nosys") { errno = ENOSYS; return -1; }
            if (kind == "eof") return 0;
            size_t m = kind == "short" ? n - 1 : kind == "half" ? n / 2 : 1;
            if (m > n) m = n;
            ssize_t r = 0;
            if (m) r = real(buf, m);
            if (r > 0) delivered += r;
            return r;
        }
        if (chosen) {
            for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = stream(pos++);
            delivered += n;
            return (ssize_t)n;
        }
        ssize_t r = real(buf, n);
        if (r > 0) delivered += r;
        return r;
    }
    bool random_device(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
    template <class Real> int opening(const char *p, Real real)
    {
        if (!random_device(p)) return real();
        std::lock_guard<std::mutex> l(mu);
        events++;
        if (hit()) {
            faults++;
            errno = kind == "intr" ? EINTR : kind == "fail" ? ENOENT : EMFILE;
            return -1;
        }
        int fd = real();
        if (fd >= 0) fds.insert(fd);
        return fd;
    }
    ssize_t real_read(int fd, void *b, size_t n)
    {
        static auto f = next<ssize_t (*)(int, void *, size_t)>("read");
        return f(fd, b, n);
    }
    ssize_t real_getrandom(void *b, size_t n)
    {
        static auto f = next<ssize_t (*)(void *, size_t, unsigned)>("getrandom");
        return f(b, n, 0);
    }
} // namespace

extern "C" {
__attribute__((no_sanitize("address"))) int open(const char *p, int flags, ...)
{
    va_list v; va_start(v, flags); int m = va_arg(v, int); va_end(v);
    static auto f = next<int (*)(const char *, int, ...)>("open");
    return opening(p, [&] { return f(p, flags, m); });
}
__attribute__((no_sanitize("address"))) int open64(const char *p, int flags, ...)
{
    va_list v; va_start(v, flags); int m = va_arg(v, int); va_end(v);
    static auto f = next<int (*)(const char *, int, ...)>("open64");
    return opening(p, [&] { return f(p, flags, m); });
}
__attribute__((no_sanitize("address"))) int openat(int d, const char *p, int flags, ...)
{
    va_list v; va_start(v, flags); int m = va_arg(v, int); va_end(v);
    static auto f = next<int (*)(int, const char *, int, ...)>("openat");
    return opening(p, [&] { return f(d, p, flags, m); });
}
FILE *fopen(const char *p, const char *mode)
{
    static auto f = next<FILE *(*)(const char *, const char *)>("fopen");
    if (!random_device(p)) return f(p, mode);
    // through a descriptor we watch; unbuffered, so that every byte read is asked for
    int fd = open(p, O_RDONLY);
    if (fd < 0) return nullptr;
    auto fp = [](void *c, char *b, size_t n) -> ssize_t { return read((int)(intptr_t)c, b, n); };
    auto cl = [](void *c) -> int { return close((int)(intptr_t)c); };
    cookie_io_functions_t io = {fp, nullptr, nullptr, cl};
    FILE *r = fopencookie((void *)(intptr_t)fd, mode, io);
    if (r) setvbuf(r, nullptr, _IONBF, 0);
    return r;
}
ssize_t read(int fd, void *b, size_t n)
{
    bool ours;
    { std::lock_guard<std::mutex> l(mu); ours = fds.count(fd) != 0; }
    if (!ours) return real_read(fd, b, n);
    return request(b, n, [&](void *x, size_t m) { return real_read(fd, x, m); });
}
int close(int fd)
{
    static auto f = next<int (*)(int)>("close");
    { std::lock_guard<std::mutex> l(mu); fds.erase(fd); }
    return f(fd);
}
ssize_t getrandom(void *b, size_t n, unsigned) { return request(b, n, real_getrandom); }
int getentropy(void *b, size_t n)
{
    ssize_t r = request(b, n, real_getrandom);
    if (r == (ssize_t)n) return 0;
    if (r >= 0) errno = EIO;
    return -1;
}
__attribute__((no_sanitize("address"))) long syscall(long no, ...) noexcept
{
    va_list v; va_start(v, no);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), g = va_arg(v, long);
    va_end(v);
    if (no == SYS_getrandom) return request((void *)a, (size_t)b, real_getrandom);
    static auto f = next<long (*)(long, ...)>("syscall");
    return f(no, a, b, c, d, e, g);
}
time_t time(time_t *t) noexcept
{
    static auto f = next<time_t (*)(time_t *)>("time");
    time_t r = frozen ? now : f(nullptr);
    if (t) *t = r;
    return r;
}
}

// en_reset: no faults, the real source, counters at zero
CMD("en_reset")
{
    std::lock_guard<std::mutex> l(mu);
    events = delivered = faults = largest = at = pos = 0;
    persist = chosen = frozen = false;
    flip = -1;
} END;
// en_plan kind event persistent
CMD("en_plan")
{
    std::lock_guard<std::mutex> l(mu);
    kind = a.next(); at = a.u64(); persist = a.flag();
    events = delivered = faults = 0;
} END;
CMD("en_stream")
{
    std::lock_guard<std::mutex> l(mu);
    seed = a.u64(); flip = a.more() ? (int64_t)a.u64() : -1; pos = 0; chosen = true;
} END;
CMD("en_time") { now = (time_t)a.u64(); frozen = true; } END;
CMD("en_stat") { std::lock_guard<std::mutex> l(mu); o.u64(events); o.u64(delivered); o.u64(faults); o.u64(largest); } END;
// fork_draw before each children: draws in this process, then in each child and again here
CMD("fork_draw")
{
    auto before = a.u64(), each = a.u64(), children = a.u64();
    std::string all;
    auto put = [&](std::string &s) { s += rand_q()->toHex() + " " + rand_p()->toHex().substr(0, 64) + " "; };
    for (uint64_t i = 0; i < before; i++) put(all);
    std::vector<int> ends;
    for (uint64_t k = 0; k < children; k++) {
        int p[2];
        if (pipe(p)) throw rpc::BadCall("pipe");
        pid_t pid = fork();
        if (pid == 0) {
            std::string s;
            try { for (uint64_t i = 0; i < each; i++) put(s); } catch (...) { _exit(1); }
            for (size_t w = 0; w < s.size();) {
                ssize_t r = write(p[1], s.data() + w, s.size() - w);
                if (r <= 0) _exit(1);
                w += (size_t)r;
            }
            _exit(0);
        }
        close(p[1]);
        ends.push_back(p[0]);
    }
    for (uint64_t i = 0; i < each; i++) put(all);
    for (int fd : ends) {
        char b[4096];
        ssize_t r;
        while ((r = read(fd, b, sizeof b)) > 0) all.append(b, (size_t)r);
        close(fd);
    }
    while (wait(nullptr) > 0) {}
    size_t i = 0;
    while (i < all.size()) { auto j = all.find(' ', i); o.raw(all.substr(i, j - i)); i = j + 1; }
} END;
