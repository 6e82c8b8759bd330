// C08: monitors of the thread pool and the parallel loops. usage: pool <scenario> <seed>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <forward_list>
#include <fstream>
#include <iterator>
#include <list>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <dirent.h>
#include "z5/util/threadpool.hxx"

using namespace z5::util;
typedef std::mt19937_64 Rng;
static std::mutex outMx;
static std::map<std::string, long> evs;
static std::atomic<int> nfail{0};
static void fail(const std::string & k, const std::string & m) { std::lock_guard<std::mutex> g(outMx); if(nfail++ < 5) printf("FAIL %s %s\n", k.c_str(), m.c_str()); }
static void ev(const char * n, long k = 1) { std::lock_guard<std::mutex> g(outMx); evs[n] += k; }
static size_t below(Rng & r, size_t n) { return r() % n; }
static int pick(Rng & r, std::initializer_list<int> l) { return *(l.begin() + below(r, l.size())); }

struct Thrown : std::runtime_error { long item; Thrown(long i) : std::runtime_error("item " + std::to_string(i)), item(i) {} };

// what a loop did: recorded by the callee, checked by the caller after the loop has returned
struct Log {
    const int nThreads;            // upper limit of the thread ids
    std::vector<std::atomic<int>> calls;
    std::vector<std::atomic<int>> busy;
    std::atomic<long> running{0}, done{0};
    std::atomic<bool> returned{false};
    std::mutex mx; std::set<std::thread::id> threads; std::set<int> tids;
    std::string order;
    Log(size_t n, int nThreads) : nThreads(nThreads), calls(n), busy(std::max(1, nThreads)) { for(auto & x : calls) x = 0; for(auto & x : busy) x = 0; }
    void enter(int tid, size_t i) {
        if(returned) fail("ran-after-return", "item " + std::to_string(i));
        ++running;
        if(tid < 0 || tid >= std::max(1, nThreads)) { fail("thread-id", "id " + std::to_string(tid) + " of " + std::to_string(nThreads)); return; }
        if(busy[tid].fetch_add(1) != 0) fail("thread-id-shared", "two calls with id " + std::to_string(tid) + " at the same time");
        if(i >= calls.size()) { fail("item-range", std::to_string(i)); return; }
        ++calls[i];
        std::lock_guard<std::mutex> g(mx); threads.insert(std::this_thread::get_id()); tids.insert(tid);
        if(order.size() < 4000) order += char('A' + tid % 26);
    }
    void leave(int tid) { if(tid >= 0 && tid < (int)busy.size()) --busy[tid]; --running; ++done; }
};

static void work(Rng & r, int kind, size_t i) {
    (void)r;
    switch(kind) {
        case 0: break;
        case 1: if(i % 3 == 0) std::this_thread::yield(); break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds((i * 2654435761u) % 300)); break;
        case 3: if(i % 16 == 0) std::this_thread::sleep_for(std::chrono::microseconds(500)); break;
        default: { volatile long x = 0; for(size_t k = 0; k < (i * 40503u) % 3000; ++k) x += k; }
    }
}

static long threadsNow() {
    long n = 0; DIR * d = opendir("/proc/self/task"); if(!d) return -1;
    while(auto * e = readdir(d)) if(e->d_name[0] != '.') ++n;
    closedir(d); return n;
}
static size_t hash(const std::string & s) { return std::hash<std::string>()(s); }
static std::set<size_t> orders;

static int actual(int nt) { return ParallelOptions(nt).getActualNumThreads(); }

// all overloads; F(tid, item)
template<class F> static void loop(int kind, int nt, ThreadPool * pool, size_t n, F && f) {
    std::vector<long> v(n); for(size_t i = 0; i < n; ++i) v[i] = i;
    switch(kind) {
        case 0: if(pool) parallel_foreach(*pool, (std::ptrdiff_t)n, f); else parallel_foreach(nt, (std::ptrdiff_t)n, f); break;
        case 1: if(pool) parallel_foreach(*pool, v.begin(), v.end(), f); else parallel_foreach(nt, v.begin(), v.end(), f); break;
        case 2: if(pool) parallel_foreach(*pool, v.data(), v.data() + n, f, n); else parallel_foreach(nt, v.data(), v.data() + n, f, n); break;
        case 3: { std::list<long> l(v.begin(), v.end()); if(pool) parallel_foreach(*pool, l.begin(), l.end(), f); else parallel_foreach(nt, l.begin(), l.end(), f); break; }
        case 4: { std::forward_list<long> l(v.begin(), v.end()); if(pool) parallel_foreach(*pool, l.begin(), l.end(), f, n); else parallel_foreach(nt, l.begin(), l.end(), f, n); break; }
        default: { std::stringstream s; for(auto x : v) s << x << " "; std::istream_iterator<long> b(s), e;
            if(pool) parallel_foreach(*pool, b, e, f); else parallel_foreach(nt, b, e, f); }
    }
}

static std::string show(int kind, int nt, bool pool, size_t n) { return "overload " + std::to_string(kind) + " threads " + std::to_string(nt) + (pool ? " pool" : "") + " items " + std::to_string(n); }

static void one(Rng & r, int nt, ThreadPool * pool) {
    const int kind = below(r, 6), wk = below(r, 5);
    const size_t n = below(r, 6) == 0 ? 0 : below(r, 3) == 0 ? below(r, 8) : below(r, wk == 2 ? 120 : 1200);
    const int lim = pool ? std::max<int>(1, pool->nThreads()) : actual(nt);
    const auto me = std::this_thread::get_id();
    const bool throwing = below(r, 3) == 0 && n > 0;
    std::set<long> bad;
    if(throwing) for(size_t k = 1 + below(r, 3) * below(r, 20); k > 0; --k) bad.insert(below(r, n));
    const bool odd = below(r, 2);           // throw something that is no std::exception
    Log log(n, lim);
    Rng w(r());
    bool caught = false; long item = -1;
    try {
        loop(kind, nt, pool, n, [&](int tid, long i) {
            log.enter(tid, i);
            work(w, wk, i);
            log.leave(tid);
            if(throwing && bad.count(i)) { if(odd) throw long(i); throw Thrown(i); }
        });
    } catch(const Thrown & e) { caught = true; item = e.item; if(e.what() != "item " + std::to_string(item)) fail("other-exception", e.what()); }
    catch(long i) { caught = true; item = i; if(!odd) fail("other-exception", "long"); }
    catch(const std::exception & e) { caught = true; fail("other-exception", e.what()); }
    log.returned = true;
    const std::string s = show(kind, nt, pool, n);
    if(log.running != 0) fail("returned-early", s + ": " + std::to_string(log.running) + " calls are still running");
    if(caught != throwing) fail(caught ? "unexpected-exception" : "exception-lost", s);
    if(caught && !bad.count(item)) fail("other-exception", s + " item " + std::to_string(item));
    size_t zero = 0, twice = 0;
    for(auto & x : log.calls) { if(x == 0) ++zero; if(x > 1) ++twice; }
    if(twice) fail("ran-twice", s + ": " + std::to_string(twice));
    if(zero && !throwing) fail("not-run", s + ": " + std::to_string(zero));
    if(throwing) {      // what was caught has run
        if(item >= 0 && log.calls[item] != 1) fail("exception-without-call", s);
        ev("throwing_loops");
    }
    if(lim == 1) {
        if(!pool || pool->nThreads() <= 1) if(n && (log.threads.size() != 1 || !log.threads.count(me))) fail("not-on-calling-thread", s);
        ev("serial_loops");
    } else if(n && log.threads.count(me)) {
        // allowed, but then the id has to be exclusive, which is checked above
    }
    if(log.threads.size() > (size_t)std::max(1, lim)) fail("too-many-threads", s);
    if(log.tids.size() > 1) orders.insert(hash(log.order));
    ev("loops"); ev("items", n);
    if(log.tids.size() > 1) ev("loops_on_several_threads");
}

static void loops(Rng & r) {
    std::thread([] {}).join();      // (starts the background thread of the sanitizer)
    const long t0 = threadsNow();
    for(int k = 0; k < 12; ++k) one(r, pick(r, {0, 1, 1, 2, 3, 4, 5, 8, 16, -1, -2}), nullptr);
    for(int k = 0; k < 2; ++k) {
        const int nt = pick(r, {0, 1, 2, 3, 4, 8, -1});
        ThreadPool p(nt);
        const size_t want = ParallelOptions(nt).getNumThreads();
        if(p.nThreads() != want) fail("pool-size", std::to_string(p.nThreads()));
        for(int q = 0; q < 6; ++q) one(r, nt, &p);        // the pool stays usable, also after exceptions
    }
    long t1 = threadsNow();
    for(int k = 0; k < 100 && t1 > t0; ++k) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); t1 = threadsNow(); }
    if(t0 > 0 && t1 > t0) fail("thread-leak", std::to_string(t0) + " threads before, " + std::to_string(t1) + " after");
    // several loops at the same time, each with a pool of its own
    std::vector<std::thread> th;
    const uint64_t s = r();
    for(int t = 0; t < 3; ++t) th.emplace_back([&, t] { Rng q(s + t); for(int k = 0; k < 3; ++k) {
        Log log(200, 4); parallel_foreach(4, (std::ptrdiff_t)200, [&](int tid, long i) { log.enter(tid, i); work(q, k == 0 ? 1 : 4, i); log.leave(tid); });
        log.returned = true; for(auto & x : log.calls) if(x != 1) fail("concurrent-loops", "item ran " + std::to_string(x) + " times"); } });
    for(auto & t : th) t.join();
    ev("concurrent_loops", 9);
}

// several producers enqueue into one pool
static void queueing(Rng & r) {
    const int nt = pick(r, {0, 1, 2, 3, 4, 8}), producers = pick(r, {1, 2, 4}), per = 10 + below(r, 150);
    const int lim = std::max(1, nt);
    const bool waiters = below(r, 2);
    std::vector<std::atomic<int>> ran(producers * per);
    for(auto & x : ran) x = 0;
    const uint64_t seed = r();
    {
        ThreadPool p(nt);
        std::vector<std::thread> th;
        for(int t = 0; t < producers; ++t) th.emplace_back([&, t] {
            Rng q(seed + t);
            std::vector<std::future<long>> fut; std::vector<std::future<void>> vf; std::vector<bool> kind;
            for(int k = 0; k < per; ++k) {
                const long id = t * per + k; const bool thr = below(q, 5) == 0; const int wk = below(q, 5);
                if(below(q, 4)) {
                    kind.push_back(false);
                    fut.push_back(p.enqueueReturning([&, id, thr, wk](int tid) -> long {
                        if(tid < 0 || tid >= lim) fail("thread-id", std::to_string(tid));
                        Rng z(1); work(z, wk, id); ++ran[id]; if(thr) throw Thrown(id); return id * 3 + 1; }));
                } else {
                    kind.push_back(true);
                    vf.push_back(p.enqueue([&, id, thr, wk](int) { Rng z(1); work(z, wk, id); ++ran[id]; if(thr) throw Thrown(id); }));
                }
                ev("tasks");
                if(nt > 0 && below(q, 40) == 0 && waiters) {
                    p.waitFinished();
                    for(int j = 0; j <= k; ++j) if(ran[t * per + j] != 1) fail("wait-finished-early", "task " + std::to_string(j) + " of " + std::to_string(k) + " has not run");
                    ev("waits");
                }
            }
            Rng q2(seed + t);
            size_t a = 0, b = 0;
            for(int k = 0; k < per; ++k) {
                const long id = t * per + k; const bool thr = below(q2, 5) == 0; below(q2, 5); const bool vo = !below(q2, 4); if(nt > 0) below(q2, 40);
                try {
                    long got = -1;
                    if(vo) vf.at(b++).get(); else got = fut.at(a++).get();
                    if(thr) fail("future-lost-exception", std::to_string(id));
                    if(!vo && got != id * 3 + 1) fail("future-value", std::to_string(id) + " gave " + std::to_string(got));
                } catch(const Thrown & e) { if(!thr || e.item != id) fail("future-exception", std::to_string(id)); ev("future_exceptions"); }
                catch(const std::exception & e) { fail("future-exception", e.what()); }
                if(ran[id] != 1) fail("future-before-task", std::to_string(id));
            }
        });
        for(auto & t : th) t.join();
        if(nt > 0) p.waitFinished();
    }
    for(auto & x : ran) if(x != 1) fail("task-count", "a task ran " + std::to_string(x) + " times");
    ev("queue_rounds");
}

// the pool is destroyed while tasks are queued and running
static void destruction(Rng & r) {
    for(int round = 0; round < 6; ++round) {
        const int nt = pick(r, {1, 2, 4, 8}), n = below(r, 200), wk = pick(r, {0, 1, 2, 4});
        std::vector<std::atomic<int>> ran(n); for(auto & x : ran) x = 0;
        std::vector<std::future<int>> fut;
        std::atomic<int> running{0}; std::atomic<bool> gone{false};
        const bool unwind = below(r, 2);
        try {
            ThreadPool p(nt);
            for(int i = 0; i < n; ++i) fut.push_back(p.enqueueReturning([&, i, wk](int) { if(gone) fail("ran-after-destruction", std::to_string(i)); ++running; Rng z(1); work(z, wk, i); ++ran[i]; --running; return i; }));
            if(below(r, 3) == 0) std::this_thread::sleep_for(std::chrono::microseconds(below(r, 1500)));
            if(unwind) throw Thrown(1);
        } catch(const Thrown &) {}
        gone = true;
        if(running != 0) fail("running-after-destruction", "");
        for(int i = 0; i < n; ++i) {
            if(fut[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) { fail("future-not-ready", "after the pool is gone"); break; }
            try { const int v = fut[i].get(); if(v != i || ran[i] != 1) fail("future-value", std::to_string(i)); ev("ran_before_destruction"); }
            catch(const std::future_error & e) { if(e.code() != std::future_errc::broken_promise || ran[i] != 0) fail("future-error", std::to_string(i) + " ran " + std::to_string(ran[i])); ev("discarded"); }
        }
        ev("destructions");
    }
    // an idle pool, an empty pool, many short pools
    for(int k = 0; k < 20; ++k) { ThreadPool p(pick(r, {0, 1, 2, 4})); if(k % 3 == 0 && p.nThreads()) p.waitFinished(); }
    ev("destructions", 20);
}

// several threads wait for the same pool
static void waiting(Rng & r) {
    for(int round = 0; round < 5; ++round) {
        ThreadPool p(pick(r, {1, 2, 3, 4}));
        const int n = 1 + below(r, 40), nw = pick(r, {1, 2, 3});
        std::atomic<int> ran{0};
        for(int i = 0; i < n; ++i) p.enqueue([&, i](int) { Rng z(1); work(z, 2, i); ++ran; });
        std::vector<std::thread> th;
        for(int t = 0; t < nw; ++t) th.emplace_back([&] { p.waitFinished(); if(ran != n) fail("wait-finished-early", std::to_string(ran) + " of " + std::to_string(n)); });
        for(auto & t : th) t.join();
        ev("waits", nw);
    }
}

int main(int argc, char ** argv) {
    const int sc = atoi(argv[1]);
    Rng r(strtoull(argv[2], nullptr, 10) * 31 + sc);
    switch(sc) {
        case 0: loops(r); break;
        case 1: for(int k = 0; k < 3; ++k) queueing(r); break;
        case 2: destruction(r); break;
        default: waiting(r);
    }
    ev("distinct_thread_orders", orders.size());
    for(auto & e : evs) printf("EV %s %ld\n", e.first.c_str(), e.second);
    printf(nfail ? "BAD\n" : "DONE\n");
    return nfail ? 2 : 0;
}
