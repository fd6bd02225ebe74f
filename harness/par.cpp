// Concurrent execution of command lines, and stress of the internal scheduler. Jitter can be injected around
// every mutex operation and allocation (not in sanitizer builds, where the runtime owns these symbols).
#include "objects.hpp"
#include "async.hpp"
#include "electionguard/precompute_buffers.hpp"
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>
using namespace obj;
using rpc::BadCall;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(address_sanitizer)
#define NO_INTERPOSE
#endif
#endif

namespace
{
    std::atomic<uint64_t> stamp{1};
    std::atomic<unsigned> jitterLevel{0};
    thread_local uint64_t jr = 0;
    void jitter(bool always = false)
    {
        unsigned l = jitterLevel.load(std::memory_order_relaxed);
        if (!l || !rpc::inWorker) return;
        jr ^= jr << 13; jr ^= jr >> 7; jr ^= jr << 17;
        unsigned k = (jr >> 20) & 255;
        if (always ? k < 160 : k < 16 * l) {
            unsigned w = (jr >> 40) & 7;
            if (w < 4) sched_yield();
            else if (w < 7) { for (volatile int i = 0; i < (int)(jr & 2047); i++) {} }
            else usleep((jr >> 50) & 255);
        }
    }
    uint64_t tick() { return stamp.fetch_add(1, std::memory_order_relaxed); }
} // namespace

#ifndef NO_INTERPOSE
extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    using F = int (*)(pthread_mutex_t *);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    jitter();
    int r = real(m);
    jitter();
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    using F = int (*)(pthread_mutex_t *);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    jitter();
    return r;
}
#endif

// par json{threads:[[line...]...], jitter:n, seed:n, stagger:bool} -> json [[ [begin,end,answer]...]...]
CMD("par")
{
    auto j = json::parse(a.blob());
    auto lists = j["threads"].get<vector<vector<string>>>();
    unsigned lvl = j.value("jitter", 0u);
    uint64_t seed = j.value("seed", 1ull);
    size_t n = lists.size();
    vector<vector<std::tuple<uint64_t, uint64_t, string>>> out(n);
    std::atomic<size_t> ready{0};
    std::atomic<bool> go{false};
    vector<std::thread> ts;
    jitterLevel = lvl;
    for (size_t t = 0; t < n; t++)
        ts.emplace_back([&, t] {
            rpc::inWorker = true;
            jr = seed * 0x9E3779B97F4A7C15ull + t * 0xD1B54A32D192ED03ull + 1;
            out[t].reserve(lists[t].size());
            ready.fetch_add(1, std::memory_order_relaxed);
            while (!go.load(std::memory_order_relaxed)) {}
            for (auto &l : lists[t]) {
                jitter(true);
                auto b = tick();
                auto r = rpc::answer(l);
                out[t].emplace_back(b, tick(), std::move(r));
            }
        });
    while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
    go.store(true, std::memory_order_relaxed);
    for (auto &t : ts) t.join();
    jitterLevel = 0;
    json r = json::array();
    for (auto &l : out) {
        json x = json::array();
        for (auto &[b, e, s] : l) x.push_back({b, e, s});
        r.push_back(std::move(x));
    }
    o.blob(dumps(r));
} END;

// spin n: busy work, for filling schedules
CMD("spin") { for (volatile uint64_t i = a.u64(); i > 0; i--) {} } END;
CMD("sleep") { usleep((useconds_t)a.u64()); } END;

// sched which(pool|single) threads producers tasks throwEvery wait jitter seed -> json
CMD("sched")
{
    string which = a.next();
    auto threads = a.u64(), producers = a.u64(), tasks = a.u64(), every = a.u64();
    bool wait = a.flag();
    unsigned lvl = (unsigned)a.u64();
    uint64_t seed = a.u64();
    size_t total = producers * tasks;
    vector<std::atomic<int>> runs(total);
    for (auto &r : runs) r.store(0, std::memory_order_relaxed);
    vector<json> results(total);
    vector<std::future<unique_ptr<uint64_t>>> futs(total);
    std::atomic<int> submitted{0};
    jitterLevel = lvl;
    {
        unique_ptr<ThreadPool> pool;
        if (which == "pool") pool = std::make_unique<ThreadPool>(threads);
        vector<std::thread> ps;
        for (size_t p = 0; p < producers; p++)
            ps.emplace_back([&, p] {
                rpc::inWorker = true;
                jr = seed * 0x9E3779B97F4A7C15ull + p + 1;
                for (size_t k = 0; k < tasks; k++) {
                    size_t id = p * tasks + k;
                    auto f = [id, &runs, every, seed] {
                        bool was = rpc::inWorker;
                        rpc::inWorker = true;
                        if (!jr) jr = seed + id * 77 + 1;
                        jitter(true);
                        runs[id].fetch_add(1, std::memory_order_relaxed);
                        rpc::inWorker = was;
                        if (every && id % every == 0) throw std::runtime_error(std::to_string(id));
                        return std::make_unique<uint64_t>(id * 3 + 1);
                    };
                    futs[id] = pool ? pool->submit(f) : Scheduler::submit(f);
                    jitter(true);
                }
            });
        for (auto &t : ps) t.join();
        if (!wait && pool) pool.reset(); // the destructor has to let every task run
        if (!every) {
            auto all = wait_all(futs);
            size_t i = 0;
            json l = json::array();
            for (auto &x : all) l.push_back(x ? json(*x) : json(nullptr));
            o.blob(dumps(l));
        } else {
            json l = json::array();
            for (size_t i = 0; i < total; i++) {
                try {
                    auto x = futs[i].get();
                    l.push_back(x ? json(*x) : json(nullptr));
                } catch (const std::exception &e) {
                    l.push_back(string("ex ") + e.what());
                }
            }
            o.blob(dumps(l));
        }
    }
    jitterLevel = 0;
    json r = json::array();
    for (auto &x : runs) r.push_back(x.load());
    o.blob(dumps(r));
} END;

// queue producers consumers items jitter seed -> per consumer list of [id...] in pop order, final emptiness
CMD("queue")
{
    auto producers = a.u64(), consumers = a.u64(), items = a.u64();
    unsigned lvl = (unsigned)a.u64();
    uint64_t seed = a.u64();
    AsyncQueue<unique_ptr<uint64_t>> q;
    std::atomic<uint64_t> left{producers * items};
    std::atomic<size_t> running{producers};
    vector<vector<int64_t>> got(consumers);
    jitterLevel = lvl;
    bool emptyBefore = q.empty();
    vector<std::thread> ts;
    for (size_t p = 0; p < producers; p++)
        ts.emplace_back([&, p] {
            rpc::inWorker = true;
            jr = seed * 31 + p + 1;
            for (size_t k = 0; k < items; k++) {
                q.push(std::make_unique<uint64_t>(p * items + k));
                jitter(true);
            }
            running.fetch_sub(1, std::memory_order_relaxed);
        });
    for (size_t c = 0; c < consumers; c++)
        ts.emplace_back([&, c] {
            rpc::inWorker = true;
            jr = seed * 37 + c + 1000;
            int idle = 0;
            for (;;) {
                bool end = running.load(std::memory_order_relaxed) == 0;
                bool ok = false;
                if (jr & 256) {
                    unique_ptr<uint64_t> v;
                    ok = q.pop(v);
                    if (ok) got[c].push_back(v ? (int64_t)*v : -1);
                } else {
                    auto v = q.pop();
                    ok = v != nullptr;
                    if (ok) got[c].push_back(*v ? (int64_t) * *v : -1);
                }
                if (jr & 512) q.empty();
                if (!ok && end && ++idle > 3) break;
                jitter(true);
            }
        });
    for (auto &t : ts) t.join();
    jitterLevel = 0;
    o.flag(emptyBefore);
    o.flag(q.empty());
    json r = got;
    o.blob(dumps(r));
} END;

// semaphore count threads rounds jitter seed -> most holders at once, count afterwards, acquisitions
CMD("semaphore")
{
    auto count = a.u64(), threads = a.u64(), rounds = a.u64();
    unsigned lvl = (unsigned)a.u64();
    uint64_t seed = a.u64();
    AsyncSemaphore s(count);
    std::atomic<int> in{0}, most{0}, total{0};
    jitterLevel = lvl;
    vector<std::thread> ts;
    for (size_t t = 0; t < threads; t++)
        ts.emplace_back([&, t] {
            rpc::inWorker = true;
            jr = seed * 41 + t + 1;
            for (size_t k = 0; k < rounds; k++) {
                if ((jr & 1023) < 100) s.wait();
                s.lock();
                int x = in.fetch_add(1, std::memory_order_relaxed) + 1;
                int m = most.load(std::memory_order_relaxed);
                while (x > m && !most.compare_exchange_weak(m, x, std::memory_order_relaxed)) {}
                jitter(true);
                total.fetch_add(1, std::memory_order_relaxed);
                in.fetch_sub(1, std::memory_order_relaxed);
                s.unlock();
                jitter(true);
            }
        });
    for (auto &t : ts) t.join();
    jitterLevel = 0;
    o.u64(most); o.u64(s.getCount()); o.u64(total);
} END;
