// C07: concurrent users of the public C++ interface, compared with a model kept by the owner of the data.
// usage: pario <scenario> <seed> <dir> <delay us>     output: "EV name n" lines, "FAIL key msg", "DONE"
#include <dlfcn.h>
#include <unistd.h>
#include <atomic>
#include <barrier>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <random>
#include <sstream>
#include <thread>
#include "z5/factory.hxx"
#include "z5/attributes.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/array_view.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/util/functions.hxx"

using namespace z5;
typedef types::ShapeType Shape;
typedef std::mt19937_64 Rng;

static std::mutex outMx;
static std::map<std::string, long> evs;
static std::atomic<int> nfail{0};

static void fail(const std::string & key, const std::string & msg) {
    std::lock_guard<std::mutex> g(outMx);
    if(nfail++ < 5) printf("FAIL %s %s\n", key.c_str(), msg.c_str());
}
static void ev(const char * n, long k = 1) { std::lock_guard<std::mutex> g(outMx); evs[n] += k; }
static size_t below(Rng & r, size_t n) { return r() % n; }
static int pick(Rng & r, std::initializer_list<int> l) { return *(l.begin() + below(r, l.size())); }
static std::string str(const Shape & s) { std::ostringstream o; for(auto x : s) o << x << ","; return o.str(); }

struct Spec {
    int fmt;                 // 1: n5, 2, 3
    std::string dtype, comp;
    Shape shape, chunks, shards;
    types::CompressionOptions opts;
    double fill = 0;
    std::string desc() const { return std::to_string(fmt) + " " + dtype + " " + comp + " " + str(shape) + " " + str(chunks) + " " + str(shards) + " fill " + std::to_string(fill); }
};

static size_t prod(const Shape & s) { size_t n = 1; for(auto x : s) n *= x; return n; }

// slabs along axis 0 are the unit of ownership; `unit` = their extent
static Spec randSpec(Rng & r, const std::string & dtype, bool big, int minSlabs) {
    static const std::vector<std::string> c1 = {"raw", "gzip", "bzip2", "xz", "lz4", "blosc", "zstd"}, c2 = {"raw", "blosc", "zlib", "bzip2", "gzip", "zstd"}, c3 = {"raw", "blosc", "gzip", "zstd"};
    Spec s;
    s.fmt = 1 + below(r, 4);
    const bool sharded = s.fmt == 4;
    if(s.fmt == 4) s.fmt = 3;
    s.dtype = dtype;
    const auto & cs = s.fmt == 1 ? c1 : s.fmt == 2 ? c2 : c3;
    s.comp = cs[below(r, cs.size())];
    const int nd = 1 + below(r, 3);
    for(int d = 0; d < nd; ++d) {
        const size_t ch = nd == 1 ? 4 + below(r, big ? 60 : 20) : 2 + below(r, big ? 9 : 5);
        size_t n;
        size_t per = 1;
        if(sharded) { per = 1 + below(r, 3); if(d == 0) per = 2 + below(r, 2); s.shards.push_back(ch * per); }
        if(d == 0) n = ch * (sharded ? per : 1) * (minSlabs + below(r, 3)) - below(r, ch);
        else n = ch * (1 + below(r, 4)) - below(r, ch);
        s.shape.push_back(std::max<size_t>(n, ch));
        s.chunks.push_back(ch);
    }
    if(s.fmt != 1 && below(r, 2)) s.fill = 1 + below(r, 100);
    return s;
}

static std::unique_ptr<Dataset> make(const filesystem::handle::File & f, const std::string & key, const Spec & s) {
    return createDataset(f, key, s.dtype, s.shape, s.chunks, s.comp, s.opts, s.fmt == 1 ? 0. : s.fill, ".", s.fmt == 3 ? 3 : 2, "default", s.shards);
}

static std::string tname(uint8_t) { return "uint8"; }
static std::string tname(int16_t) { return "int16"; }
static std::string tname(uint64_t) { return "uint64"; }
static std::string tname(float) { return "float32"; }
static std::string tname(double) { return "float64"; }

template<class T> struct Model {
    const Spec s; std::vector<T> a; Shape st;
    Model(const Spec & s) : s(s), a(prod(s.shape), T(s.fmt == 1 ? 0 : s.fill)), st(s.shape.size(), 1) {
        for(int d = int(st.size()) - 2; d >= 0; --d) st[d] = st[d + 1] * s.shape[d + 1];
    }
    template<class F> void each(const Shape & lo, const Shape & sh, F && f) {
        Shape p(lo.size(), 0); size_t n = prod(sh);
        for(size_t i = 0; i < n; ++i) {
            size_t o = 0; for(size_t d = 0; d < p.size(); ++d) o += (lo[d] + p[d]) * st[d];
            f(i, a[o]);
            for(int d = int(p.size()) - 1; d >= 0; --d) { if(++p[d] < sh[d]) break; p[d] = 0; }
        }
    }
};

template<class T> static Shape cstr(const Shape & sh) { Shape st(sh.size(), 1); for(int d = int(sh.size()) - 2; d >= 0; --d) st[d] = st[d + 1] * sh[d + 1]; return st; }

template<class T> static void put(const Dataset & ds, const std::vector<T> & x, const Shape & lo, const Shape & sh, int nt) {
    multiarray::ConstArrayView<T> v(x.data(), sh, cstr<T>(sh));
    multiarray::writeSubarray<T>(ds, v, lo.begin(), nt);
}
template<class T> static std::vector<T> get(const Dataset & ds, const Shape & lo, const Shape & sh, int nt) {
    std::vector<T> x(prod(sh), T(113));
    multiarray::ArrayView<T> v(x.data(), sh, cstr<T>(sh));
    multiarray::readSubarray<T>(ds, v, lo.begin(), nt);
    return x;
}
template<class T> static bool eq(Model<T> & m, const Shape & lo, const Shape & sh, const std::vector<T> & x) {
    bool ok = true; m.each(lo, sh, [&](size_t i, T & v) { if(x[i] != v) ok = false; }); return ok;
}

// random region with axis 0 inside [b0, e0)
static void region(Rng & r, const Spec & s, size_t b0, size_t e0, Shape & lo, Shape & sh) {
    lo.clear(); sh.clear();
    for(size_t d = 0; d < s.shape.size(); ++d) {
        const size_t b = d ? 0 : b0, e = d ? s.shape[d] : e0;
        size_t x, y;
        if(below(r, 3) == 0) { x = b; y = e; }
        else { x = b + below(r, e - b); y = x + 1 + below(r, e - x); }
        lo.push_back(x); sh.push_back(y - x);
    }
}

template<class T> static std::vector<T> data(Rng & r, size_t n, const Spec & s) {
    std::vector<T> x(n);
    switch(below(r, 4)) {
        case 0: { T v = T(below(r, 120)); std::fill(x.begin(), x.end(), v); break; }
        case 1: std::fill(x.begin(), x.end(), T(s.fmt == 1 ? 0 : s.fill)); break;
        default: for(auto & v : x) v = T(below(r, 30000));
    }
    return x;
}

// random operations of the owner of the slab [b0, e0); nobody else writes there
template<class T> static void owner(const Dataset & ds, Model<T> & m, size_t b0, size_t e0, Rng r, int n, int maxnt) {
    const Spec & s = m.s;
    Shape lo, sh;
    for(int k = 0; k < n; ++k) {
        region(r, s, b0, e0, lo, sh);
        const int nt = 1 + below(r, maxnt);
        const size_t op = below(r, 10);
        if(op < 4) {
            auto x = data<T>(r, prod(sh), s);
            put(ds, x, lo, sh, nt);
            m.each(lo, sh, [&](size_t i, T & v) { v = x[i]; });
            ev("writes");
        } else if(op < 5) {
            const T val = T(below(r, 100));
            multiarray::writeScalar<T>(ds, lo.begin(), sh.begin(), val, nt);
            m.each(lo, sh, [&](size_t, T & v) { v = val; });
            ev("scalar_writes");
        } else if(op < 7) {       // chunk interface
            Shape id(lo.size()), org(lo.size()), csh;
            for(size_t d = 0; d < id.size(); ++d) { id[d] = lo[d] / s.chunks[d]; org[d] = id[d] * s.chunks[d]; }
            ds.getChunkShape(id, csh);
            if(op < 6) {
                const Shape full = s.fmt == 1 ? csh : s.chunks;
                std::vector<T> pay(prod(full), T(s.fmt == 1 ? 0 : s.fill));
                const auto fst = cstr<T>(full);
                auto x = data<T>(r, prod(csh), s);
                size_t j = 0;
                m.each(org, csh, [&](size_t i, T & v) { v = x[i];
                    size_t rest = i, o = 0; for(int d = int(csh.size()) - 1; d >= 0; --d) { o += (rest % csh[d]) * fst[d]; rest /= csh[d]; }
                    pay[o] = x[i]; ++j; });
                ds.writeChunk(id, pay.data());
                ev("chunk_writes");
            } else {
                bool fill = true;
                m.each(org, csh, [&](size_t, T & v) { if(v != T(s.fmt == 1 ? 0 : s.fill)) fill = false; });
                const bool ex = ds.chunkExists(id);
                if(ex == fill) fail("exists", s.desc() + " chunk " + str(id) + (ex ? " exists but holds only fill" : " does not exist"));
                if(ex) {
                    std::vector<T> buf(std::max(ds.defaultChunkSize(), ds.getChunkSize(id)));
                    ds.readChunk(id, buf.data());
                    const auto fst = cstr<T>(s.fmt == 1 ? csh : s.chunks);
                    bool ok = true;
                    m.each(org, csh, [&](size_t i, T & v) {
                        size_t rest = i, o = 0; for(int d = int(csh.size()) - 1; d >= 0; --d) { o += (rest % csh[d]) * fst[d]; rest /= csh[d]; }
                        if(buf[o] != v) ok = false; });
                    if(!ok) fail("chunk-content", s.desc() + " chunk " + str(id));
                }
                ev("chunk_queries");
            }
        } else {
            auto x = get<T>(ds, lo, sh, nt);
            if(!eq(m, lo, sh, x)) fail("read", s.desc() + " region " + str(lo) + " shape " + str(sh) + " nt " + std::to_string(nt));
            ev("reads");
        }
    }
    lo.assign(s.shape.size(), 0); sh = s.shape; lo[0] = b0; sh[0] = e0 - b0;
    auto x = get<T>(ds, lo, sh, 1);
    if(!eq(m, lo, sh, x)) fail("owner-final", s.desc() + " slab " + std::to_string(b0));
}

static void guarded(const std::function<void()> & f) {
    try { f(); } catch(const std::exception & e) { fail("exception", e.what()); } catch(...) { fail("exception", "unknown"); }
}

// ------------------------------------------------------------------------------------------- scenarios

template<class T> static void serialVsParallel(Rng & r, const filesystem::handle::File & f, const filesystem::handle::File & fs_) {
    (void)fs_;
    Spec s = randSpec(r, tname(T()), true, 2);
    auto P = make(f, "p", s), S = make(f, "s", s);
    Model<T> m(s);
    Shape lo, sh;
    const Shape zero(s.shape.size(), 0);
    for(int k = 0; k < 14; ++k) {
        region(r, s, 0, s.shape[0], lo, sh);
        const int nt = pick(r, {2, 2, 3, 4, 6, 8, 16});
        switch(below(r, 4)) {
            case 0: { const T val = below(r, 4) ? T(below(r, 100)) : T(s.fmt == 1 ? 0 : s.fill);
                multiarray::writeScalar<T>(*P, lo.begin(), sh.begin(), val, nt);
                multiarray::writeScalar<T>(*S, lo.begin(), sh.begin(), val, 1);
                m.each(lo, sh, [&](size_t, T & v) { v = val; }); ev("scalar_writes"); break; }
            case 1: case 2: { auto x = data<T>(r, prod(sh), s);
                put(*P, x, lo, sh, nt); put(*S, x, lo, sh, 1);
                m.each(lo, sh, [&](size_t i, T & v) { v = x[i]; }); ev("writes"); break; }
            default: ;
        }
        region(r, s, 0, s.shape[0], lo, sh);
        auto a = get<T>(*P, lo, sh, nt), b = get<T>(*S, lo, sh, 1), c = get<T>(*P, lo, sh, 1);
        if(a != b || a != c || !eq(m, lo, sh, a)) fail("parallel-differs", s.desc() + " nt " + std::to_string(nt) + " at " + str(lo) + " " + str(sh));
        ev("reads", 3);
    }
    const size_t n = P->numberOfChunks();
    for(size_t i = 0; i < n; ++i) {
        Shape id; P->chunking().blockIdToBlockCoordinate(i, id);
        if(P->chunkExists(id) != S->chunkExists(id)) { fail("parallel-existence", s.desc() + " chunk " + str(id)); break; }
        if(!P->chunkExists(id)) continue;
        std::vector<T> a(P->defaultChunkSize() + P->getChunkSize(id)), b(a);
        P->readChunk(id, a.data()); S->readChunk(id, b.data());
        if(a != b) { fail("parallel-chunk", s.desc() + " chunk " + str(id)); break; }
        ev("chunks_compared");
    }
    // utilities in parallel
    std::set<T> u1, u2; util::unique<T>(*P, 1, u1); util::unique<T>(*P, pick(r, {2, 4, 8}), u2);
    if(u1 != u2) fail("parallel-unique", s.desc());
    std::map<T, size_t> c1, c2; util::uniqueWithCounts<T>(*P, 1, c1); util::uniqueWithCounts<T>(*P, pick(r, {2, 4, 8}), c2);
    if(c1 != c2) fail("parallel-counts", s.desc());
    util::removeTrivialChunks<T>(*P, pick(r, {2, 4, 8})); util::removeTrivialChunks<T>(*S, 1);
    for(size_t i = 0; i < n; ++i) {
        Shape id; P->chunking().blockIdToBlockCoordinate(i, id);
        if(P->chunkExists(id) != S->chunkExists(id)) { fail("parallel-trivial", s.desc() + " chunk " + str(id)); break; }
    }
    util::removeDataset(*P, pick(r, {2, 4, 8}));
}

// threads own disjoint slabs of chunks of one dataset; one handle (shared) or one handle per thread
template<class T> static void disjoint(Rng & r, const filesystem::handle::File & f, bool oneHandle) {
    const int nth = pick(r, {2, 3, 4, 6, 8});
    Spec s = randSpec(r, tname(T()), false, nth + 2);
    auto ds = make(f, "d", s);
    size_t unit = s.chunks[0];
    if(!oneHandle && s.shards.size()) unit = s.shards[0];
    size_t nslab = (s.shape[0] + unit - 1) / unit;
    if(nslab < 2) return;
    Model<T> base(s);
    { auto x = data<T>(r, prod(s.shape), s); Shape z(s.shape.size(), 0); put(*ds, x, z, s.shape, 1); base.a = x; }
    // slabs: 0 stays as it is (readers), the others are distributed
    std::vector<std::pair<size_t, size_t>> own;
    const int workers = std::min<size_t>(nth, nslab - 1);
    for(int t = 0; t < workers; ++t) {
        const size_t b = 1 + (nslab - 1) * t / workers, e = 1 + (nslab - 1) * (t + 1) / workers;
        own.emplace_back(b * unit, std::min(e * unit, s.shape[0]));
    }
    std::vector<Model<T>> models(workers, base);
    std::vector<std::unique_ptr<Dataset>> handles;
    for(int t = 0; t < workers + 2; ++t) if(!oneHandle) handles.push_back(openDataset(f, "d"));
    auto H = [&](int t) -> const Dataset & { return oneHandle ? *ds : *handles[t]; };
    const uint64_t seed = r();
    std::barrier bar(workers + 2);
    std::atomic<int> done{0};
    std::vector<std::thread> th;
    for(int t = 0; t < workers; ++t) th.emplace_back([&, t] {
        bar.arrive_and_wait();
        guarded([&] { owner<T>(H(t), models[t], own[t].first, own[t].second, Rng(seed + t), 14, 3); });
        ++done;
    });
    for(int t = 0; t < 2; ++t) th.emplace_back([&, t] {       // readers of data nobody writes
        Rng rr(seed + 1000 + t);
        Model<T> m(base);
        bar.arrive_and_wait();
        guarded([&] {
            for(int k = 0; k < 400 && (k < 3 || done < workers); ++k) {
                Shape lo, sh; region(rr, s, 0, std::min(unit, s.shape[0]), lo, sh);
                auto x = get<T>(H(workers + t), lo, sh, 1 + below(rr, 2));
                if(!eq(m, lo, sh, x)) { fail("stable-read", s.desc() + " at " + str(lo)); break; }
                ev("stable_reads");
            }
        });
    });
    for(auto & t : th) t.join();
    // everything together, from a fresh handle
    auto fresh = openDataset(f, "d");
    for(int t = 0; t < workers; ++t) {
        Shape lo(s.shape.size(), 0), sh(s.shape); lo[0] = own[t].first; sh[0] = own[t].second - own[t].first;
        auto x = get<T>(*fresh, lo, sh, 2);
        if(!eq(models[t], lo, sh, x)) fail(oneHandle ? "lost-update-one-handle" : "lost-update-handles", s.desc() + " slab of thread " + std::to_string(t));
    }
    { Shape lo(s.shape.size(), 0), sh(s.shape); sh[0] = std::min(unit, s.shape[0]);
      auto x = get<T>(*fresh, lo, sh, 1); if(!eq(base, lo, sh, x)) fail("untouched-changed", s.desc()); }
    ev(oneHandle ? "rounds_one_handle" : "rounds_handles");
}

// every thread works on datasets of its own (two at a time, of different types), creating and removing them, with attributes
template<class A, class B> static void ownDatasets(const filesystem::handle::File & f, int t, Rng r) {
    const std::string n1 = "a" + std::to_string(t), n2 = "b" + std::to_string(t);
    for(int k = 0; k < 2; ++k) {
        Spec s1 = randSpec(r, tname(A()), false, 2), s2 = randSpec(r, tname(B()), below(r, 2), 2);
        s1.fmt = s2.fmt = f.isZarr() ? (fs::exists(f.path() / "zarr.json") ? 3 : 2) : 1;
        static const std::vector<std::string> cm[3] = {{"raw", "gzip", "bzip2", "xz", "lz4", "blosc", "zstd"}, {"raw", "blosc", "zlib", "bzip2", "gzip", "zstd"}, {"raw", "blosc", "gzip", "zstd"}};
        s1.comp = cm[s1.fmt - 1][below(r, cm[s1.fmt - 1].size())]; s2.comp = cm[s2.fmt - 1][below(r, cm[s2.fmt - 1].size())];
        if(s1.fmt != 3) s1.shards.clear();
        if(s2.fmt != 3) s2.shards.clear();
        auto d1 = make(f, n1, s1), d2 = make(f, n2, s2);
        Model<A> m1(s1); Model<B> m2(s2);
        nlohmann::json at; at["thread"] = t; at["k"] = k;
        filesystem::handle::Dataset h1(f, n1);
        writeAttributes(h1, at);
        for(int q = 0; q < 3; ++q) {
            owner<A>(*d1, m1, 0, s1.shape[0], Rng(r()), 3, 2);
            owner<B>(*d2, m2, 0, s2.shape[0], Rng(r()), 3, 2);
        }
        nlohmann::json got; readAttributes(h1, got);
        if(got != at) fail("attributes", got.dump());
        std::map<A, size_t> cnt; util::uniqueWithCounts<A>(*d1, 2, cnt);
        size_t total = 0, ex = 0; for(auto & x : cnt) total += x.second;
        const size_t n = d1->numberOfChunks();
        for(size_t i = 0; i < n; ++i) { Shape id; d1->chunking().blockIdToBlockCoordinate(i, id); if(d1->chunkExists(id)) { Shape csh; d1->getChunkShape(id, csh); ex += prod(csh); } }
        if(total != ex) fail("counts", s1.desc());
        auto o1 = openDataset(f, n1);
        Shape z(s1.shape.size(), 0);
        auto x = get<A>(*o1, z, s1.shape, 2);
        if(!eq(m1, z, s1.shape, x)) fail("own-dataset", s1.desc());
        util::removeDataset(*d1, 2);
        util::removeDataset(*d2, 1);
        if(fs::exists(f.path() / n1) || fs::exists(f.path() / n2)) fail("not-removed", n1);
        ev("own_datasets", 2);
    }
}

int main(int argc, char ** argv) {
    const int scenario = atoi(argv[1]);
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const std::string dir = argv[3];
    const int delay = atoi(argv[4]);
    Rng r(seed * 7919 + scenario);
    typedef void (*Arm)(const char *, int, unsigned, long, int, int);
    if(delay > 0) {
        Arm arm = (Arm)dlsym(RTLD_DEFAULT, "vt_arm");
        if(!arm) { printf("FAIL harness shim is missing\n"); return 3; }
        arm(dir.c_str(), 0, 0xfffu, 0, 0, delay);
    }
    if(scenario == 99) {        // self test: the detector has to report this race
        static long shared = 0;
        std::thread a([] { for(int i = 0; i < 1000; ++i) ++shared; }), b([] { for(int i = 0; i < 1000; ++i) ++shared; });
        a.join(); b.join();
        printf("SHARED %ld\n", shared);
    }
    if(scenario != 99) guarded([&] {
        // the file is zarr or n5; sharded and v3 data sets sit in a v3 container
        auto fileFor = [&](const std::string & name, int fmt) {
            filesystem::handle::File f(dir + "/" + name, FileMode(FileMode::a));
            createFile(f, fmt != 1, fmt == 3 ? 3 : 2); return f; };
        // (the specification decides the format, so every format gets its container)
        if(scenario < 30) {
            Rng probe(r);
            Rng r2(r);
            const int ty = scenario % 5;
            // peek at the format of the specification that the scenario is going to draw
            auto peek = [&](Rng q, bool dis) { if(dis) { const int nth = pick(q, {2, 3, 4, 6, 8}); return randSpec(q, "x", false, nth + 2).fmt; } return randSpec(q, "x", true, 2).fmt; };
            const int kind = scenario / 5 % 3;
            auto f = fileFor("f", peek(probe, kind != 0));
            switch(kind) {
#define D(call) switch(ty) { case 0: call(uint8_t); break; case 1: call(int16_t); break; case 2: call(uint64_t); break; case 3: call(float); break; default: call(double); }
#define A0(T) serialVsParallel<T>(r2, f, f)
#define A1(T) disjoint<T>(r2, f, true)
#define A2(T) disjoint<T>(r2, f, false)
                case 0: D(A0) break;
                case 1: D(A1) break;
                default: D(A2) break;
            }
        } else {
            auto f = fileFor("f", 1 + seed % 3);
            const int nth = pick(r, {2, 3, 4, 6});
            std::vector<std::thread> th;
            const uint64_t sd = r();
            for(int t = 0; t < nth; ++t) th.emplace_back([&, t] { guarded([&] {
                switch(t % 3) {
                    case 0: ownDatasets<uint8_t, double>(f, t, Rng(sd + t)); break;
                    case 1: ownDatasets<float, int16_t>(f, t, Rng(sd + t)); break;
                    default: ownDatasets<uint64_t, uint8_t>(f, t, Rng(sd + t)); break;
                } }); });
            for(auto & t : th) t.join();
            ev("rounds_datasets");
        }
    });
    for(auto & e : evs) printf("EV %s %ld\n", e.first.c_str(), e.second);
    printf(nfail ? "BAD\n" : "DONE\n");
    fflush(stdout);
    return nfail ? 2 : 0;
}
