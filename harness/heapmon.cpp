// Freed-memory monitor: while on, the content of every freed heap block (as free() receives it) is recorded with
// its call stack, and can be searched for values afterwards.
#include "rpc.hpp"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <malloc.h>
#include <sys/mman.h>
#include <unordered_map>

extern "C" void __libc_free(void *);

namespace
{
    constexpr size_t CAP = size_t(3) << 30; // reserved, touched only as needed
    constexpr int FR = 10;
    struct Head {
        uint32_t size, depth;
        void *pc[FR];
    };
    char *area = nullptr;
    std::atomic<size_t> used{0};
    std::atomic<bool> on{false};
    bool overflow = false;
    uint64_t blocks = 0;
    thread_local bool inside = false;

    void record(void *p)
    {
        size_t n = malloc_usable_size(p);
        if (n < 16 || n > (1u << 26)) return;
        size_t need = sizeof(Head) + ((n + 15) & ~size_t(15));
        size_t at = used.fetch_add(need);
        if (at + need > CAP) {
            overflow = true;
            return;
        }
        Head *h = (Head *)(area + at);
        h->size = (uint32_t)n;
        void *pc[FR + 2];
        int d = backtrace(pc, FR + 1);
        h->depth = d > 1 ? d - 1 : 0;
        for (unsigned i = 0; i < h->depth; i++) h->pc[i] = pc[i + 1];
        memcpy(h + 1, p, n);
        blocks++;
    }
} // namespace

extern "C" void free(void *p)
{
    if (p && on.load(std::memory_order_relaxed) && !inside) {
        inside = true;
        record(p);
        inside = false;
    }
    __libc_free(p);
}

// fresh blocks start zeroed, so that a freed block holds only what was written during its own life
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *malloc(size_t n) { return __libc_calloc(1, n); }

// hm_on: start recording
CMD("hm_on")
{
    if (!area) {
        area = (char *)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (area == MAP_FAILED) throw rpc::BadCall("mmap");
        void *pc[4];
        backtrace(pc, 4); // loads what it needs now
    }
    used = 0;
    blocks = 0;
    overflow = false;
    on = true;
} END;
// hm_off: stop; number of blocks and bytes recorded
CMD("hm_off")
{
    on = false;
    if (overflow) throw rpc::BadCall("recording overflowed");
    o.u64(blocks);
    o.u64(used);
} END;
// hm_scan value...: 8-byte pieces of each value (big-endian hex) in the recorded blocks, in either byte order
// -> per hit: value index, piece offset in the value, byte offset in the block, block size, stack
CMD("hm_scan")
{
    struct Piece { size_t val, off; char order; };
    std::unordered_map<uint64_t, Piece> pieces;
    size_t vi = 0;
    for (; a.more(); vi++) {
        auto b = a.bytes();
        for (int order = 0; order < 2; order++) {
            auto c = b;
            if (order) std::reverse(c.begin(), c.end());
            for (size_t i = 0; i + 8 <= c.size(); i++) {
                uint64_t w;
                memcpy(&w, &c[i], 8);
                unsigned distinct = 0, seen[256] = {};
                for (size_t q = i; q < i + 8; q++) distinct += !seen[c[q]]++;
                if (distinct > 4) pieces[w] = {vi, i, order ? 'l' : 'b'};
            }
        }
    }
    std::vector<bool> filter(1 << 20);
    for (auto &p : pieces) filter[(p.first * 0x9E3779B97F4A7C15ull) >> 44] = true;
    size_t hits = 0;
    for (size_t at = 0; at < used && hits < 400;) {
        Head *h = (Head *)(area + at);
        const char *d = (const char *)(h + 1);
        for (size_t i = 0; i + 8 <= h->size; i++) {
            uint64_t w;
            memcpy(&w, d + i, 8);
            if (!filter[(w * 0x9E3779B97F4A7C15ull) >> 44]) continue;
            auto it = pieces.find(w);
            if (it == pieces.end()) continue;
            std::string s = std::to_string(it->second.val) + "," + it->second.order + std::to_string(it->second.off) + "," + std::to_string(i) + "," + std::to_string(h->size);
            for (unsigned q = 0; q < h->depth; q++) {
                char b[24];
                snprintf(b, sizeof b, ",%p", h->pc[q]);
                s += b;
            }
            o.raw(s);
            hits++;
            break; // one hit per block
        }
        at += sizeof(Head) + ((h->size + 15) & ~size_t(15));
    }
} END;
// hm_plant size offset bytes...: control: a block freed with the given content
CMD("hm_plant")
{
    size_t n = a.u64(), at = a.u64();
    auto b = a.bytes();
    volatile char *p = (volatile char *)malloc(n);
    for (size_t i = 0; i < b.size() && at + i < n; i++) p[at + i] = b[i];
    free((void *)p);
    for (auto &x : b) x = 0;
} END;
CMD("hm_base") { char b[24]; snprintf(b, sizeof b, "%p", (void *)&on); o.raw(b); } END;
