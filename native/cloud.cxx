// The object-store back ends through the C++ interface: n5 containers in S3 (stand-in service of s3stub/) next to the
// same history on the filesystem, and the gcs scaffold, of which every operation has to refuse loudly.
#define WITH_S3
#define WITH_GCS
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include "z5/factory.hxx"
#include "z5/attributes.hxx"
#include "z5/multiarray/array_access.hxx"
#include "s3stub.cxx"

static long nEv[4] = {0};
static void fail(const std::string & key, const std::string & what) {
    std::printf("FAIL %s %s\n", key.c_str(), what.c_str());
    std::fflush(stdout);
    std::exit(3);
}

template<class F>
static std::string outcome(F && f) {
    try {
        f();
    } catch(const std::exception & e) {
        return "raised";
    }
    return "ok";
}

static void mustThrow(const char * what, const std::function<void()> & f) {
    ++nEv[0];
    try {
        f();
    } catch(const std::exception & e) {
        return;
    }
    fail("gcs-silent", std::string(what) + " did nothing and did not raise");
}

static int gcs() {
    using namespace z5;
    gcs::handle::File file{FileMode(FileMode::a)};
    nlohmann::json j;
    j["a"] = 1;
    std::vector<std::string> keys;
    mustThrow("exists", [&](){file.exists();});
    mustThrow("create", [&](){file.create();});
    mustThrow("remove", [&](){file.remove();});
    mustThrow("keys", [&](){file.keys(keys);});
    mustThrow("in", [&](){file.in("a");});
    mustThrow("isZarr", [&](){file.isZarr();});
    mustThrow("createFile", [&](){createFile(file, true, 2);});
    mustThrow("createGroup", [&](){createGroup(file, "g", 2);});
    mustThrow("openDataset", [&](){openDataset(file, "d");});
    DatasetMetadata m;
    createDatasetMetadata("uint8", {10}, {5}, true, "raw", types::CompressionOptions(), 0, ".", m, 2, "default", types::ShapeType());
    mustThrow("createDataset", [&](){createDataset(file, "d", m);});
    mustThrow("createDataset", [&](){createDataset(file, "d", "uint8", {10}, {5});});
    mustThrow("readAttributes", [&](){readAttributes(file, j);});
    mustThrow("writeAttributes", [&](){writeAttributes(file, j);});
    mustThrow("removeAttribute", [&](){removeAttribute(file, "a");});
    gcs::handle::Group group(file, "g");
    mustThrow("group exists", [&](){group.exists();});
    mustThrow("group create", [&](){group.create();});
    mustThrow("group remove", [&](){group.remove();});
    mustThrow("group keys", [&](){group.keys(keys);});
    gcs::handle::Dataset ds(file, "d");
    mustThrow("dataset exists", [&](){ds.exists();});
    mustThrow("dataset create", [&](){ds.create();});
    mustThrow("dataset remove", [&](){ds.remove();});
    mustThrow("dataset readAttributes", [&](){readAttributes(ds, j);});
    mustThrow("dataset writeAttributes", [&](){writeAttributes(ds, j);});
    for(const auto mode : {FileMode::r, FileMode::r_p}) {
        gcs::handle::File f{FileMode(mode)};
        mustThrow("create in mode r", [&](){f.create();});
    }
    std::printf("EV gcs_refusals %ld\n", nEv[0]);
    return 0;
}

typedef std::vector<std::size_t> Shape;

static std::map<std::string, std::string> files(const fs::path & root) {
    std::map<std::string, std::string> out;
    for(const auto & p : fs::recursive_directory_iterator(root)) {
        if(fs::is_regular_file(p)) {
            std::ifstream f(p.path(), std::ios::binary);
            out[fs::relative(p.path(), root).string()] = std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
        }
    }
    return out;
}

template<class T>
static void n5(const unsigned seed, const std::string & dir) {
    using namespace z5;
    std::mt19937 rng(seed);
    const auto rnd = [&rng](const std::size_t n){return std::size_t(rng() % n);};
    vts3_reset("bkt");
    vts3_config(rnd(2) ? 1000 : 2, 0, rnd(4) == 0, 0);
    const std::string prefix = rnd(3) ? "c/on.n5" : "";
    s3::handle::File sf("bkt", prefix, FileMode(FileMode::a), "http://127.0.0.1:9");
    filesystem::handle::File ff(dir, FileMode(FileMode::a));
    createFile(sf, false);
    createFile(ff, false);
    const auto same = [&](const std::string & what) {
        auto f = files(dir);
        auto & all = service().buckets["bkt"];
        std::map<std::string, std::string> o;
        for(const auto & kv : all) {
            o[prefix.empty() ? kv.first : kv.first.substr(prefix.size() + 1)] = kv.second;
        }
        for(auto * m : {&f, &o}) {
            for(auto & kv : *m) {
                if(kv.first.size() >= 15 && kv.first.compare(kv.first.size() - 15, 15, "attributes.json") == 0) {
                    kv.second = nlohmann::json::parse(kv.second).dump();
                }
            }
        }
        ++nEv[1];
        if(f != o) {
            std::string which;
            for(const auto & kv : f) if(!o.count(kv.first) || o[kv.first] != kv.second) which += " " + kv.first;
            for(const auto & kv : o) if(!f.count(kv.first)) which += " " + kv.first;
            fail("s3-n5-objects-differ", what + ":" + which);
        }
    };
    same("creating the container");
    const std::size_t ndim = 1 + rnd(3);
    Shape shape(ndim), chunks(ndim), one(ndim, 1);
    std::size_t total = 1;
    for(std::size_t d = 0; d < ndim; ++d) {
        shape[d] = 1 + rnd(ndim == 1 ? 60 : 12);
        chunks[d] = 1 + rnd(shape[d]);
        total *= shape[d];
    }
    const char * comps[] = {"raw", "gzip", "bzip2", "xz", "lz4", "blosc", "zstd"};
    const std::string comp = comps[rnd(7)];
    const std::string dtype = types::Datatypes::dtypeToN5()[types::Datatypes::n5ToDtype()[sizeof(T) == 1 ? "uint8" : sizeof(T) == 4 ? "float32" : "int16"]];
    const std::string key = rnd(2) ? "d" : "d1";
    auto sd = createDataset(sf, key, dtype, shape, chunks, comp);
    auto fd = createDataset(ff, key, dtype, shape, chunks, comp);
    same("creating the dataset");
    std::vector<T> model(total, T(0));
    typedef z5::multiarray::ArrayView<T> View;
    for(int step = 0; step < 25; ++step) {
        Shape lo(ndim), size(ndim), strides(ndim);
        std::size_t n = 1;
        for(std::size_t d = 0; d < ndim; ++d) {
            lo[d] = rnd(shape[d]);
            size[d] = 1 + rnd(shape[d] - lo[d]);
        }
        for(std::size_t d = ndim; d-- > 0;) {
            strides[d] = n;
            n *= size[d];
        }
        const int threads = rnd(3) ? 1 : 3;
        const int what = rnd(7);
        std::vector<T> data(n);
        if(what < 3) {
            const bool zero = rnd(4) == 0;
            for(auto & x : data) x = zero ? T(0) : T(rng() % 200);
            z5::multiarray::ConstArrayView<T> v(data.data(), size, z5::types::ShapeType(strides.begin(), strides.end()));
            z5::multiarray::writeSubarray<T>(*sd, v, lo.begin(), threads);
            z5::multiarray::writeSubarray<T>(*fd, v, lo.begin(), threads);
            for(std::size_t i = 0; i < n; ++i) {
                std::size_t off = 0;
                for(std::size_t d = 0; d < ndim; ++d) off = off * shape[d] + lo[d] + (i / strides[d]) % size[d];
                model[off] = data[i];
            }
            same("a write");
            ++nEv[2];
        } else if(what < 5) {
            View v(data.data(), size, z5::types::ShapeType(strides.begin(), strides.end()));
            if(rnd(2)) sd = openDataset(sf, key);
            z5::multiarray::readSubarray<T>(*sd, v, lo.begin(), threads);
            for(std::size_t i = 0; i < n; ++i) {
                std::size_t off = 0;
                for(std::size_t d = 0; d < ndim; ++d) off = off * shape[d] + lo[d] + (i / strides[d]) % size[d];
                if(model[off] != data[i]) fail("s3-n5-read", "element " + std::to_string(off));
            }
            ++nEv[2];
        } else if(what == 5) {
            nlohmann::json j, k;
            j[rnd(2) ? "x" : "y"] = rnd(100);
            const bool onDs = rnd(2);
            s3::handle::Dataset sh(sf, key);
            filesystem::handle::Dataset fh(ff, key);
            const auto a = outcome([&](){if(onDs) writeAttributes(sh, j); else writeAttributes(sf, j);});
            const auto b = outcome([&](){if(onDs) writeAttributes(fh, j); else writeAttributes(ff, j);});
            if(a != b) fail("s3-n5-attributes", a + " / " + b);
            nlohmann::json ra, rb;
            if(onDs) {readAttributes(sh, ra); readAttributes(fh, rb);} else {readAttributes(sf, ra); readAttributes(ff, rb);}
            if(ra != rb) fail("s3-n5-attributes", ra.dump() + " / " + rb.dump());
            same("writing attributes");
        } else {
            // a chunk of another size than the grid's: refused (its size cannot be asked for here), nothing out of bounds
            Shape id(ndim);
            std::size_t csize = 1;
            for(std::size_t d = 0; d < ndim; ++d) {id[d] = rnd((shape[d] + chunks[d] - 1) / chunks[d]); csize *= chunks[d];}
            const auto before = files(dir);
            const std::size_t k = rnd(2) ? 1 + rnd(csize) : csize + 1 + rnd(5000);
            std::vector<T> big(k, T(9));
            fd->writeChunk(id, big.data(), true, k);
            fs::path p;
            fd->chunkPath(id, p);
            const std::string rel = fs::relative(p, dir).string(), full = prefix.empty() ? rel : prefix + "/" + rel;
            auto & objects = service().buckets["bkt"];
            const bool had = objects.count(full);
            const std::string old = had ? objects[full] : "";
            std::ifstream f(p, std::ios::binary);
            objects[full] = std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
            std::vector<T> out(csize, T(3));
            const auto r = outcome([&](){sd->readChunk(id, out.data());});
            std::vector<T> all(total);
            Shape st(ndim); std::size_t q = 1;
            for(std::size_t d = ndim; d-- > 0;) {st[d] = q; q *= shape[d];}
            View v(all.data(), shape, z5::types::ShapeType(st.begin(), st.end()));
            Shape zero(ndim, 0);
            const auto r2 = outcome([&](){z5::multiarray::readSubarray<T>(*sd, v, zero.begin(), threads);});
            if(r != "raised" || r2 != "raised") fail("s3-n5-varlen", "a varlen chunk is read as a regular one: " + r + ", " + r2);
            ++nEv[3];
            // back to where it was
            if(had) objects[full] = old; else objects.erase(full);
            if(before.count(rel)) {
                std::ofstream g(p, std::ios::binary);
                g << before.at(rel);
            } else {
                fs::remove(p);
            }
            same("putting the chunk back");
        }
    }
    std::printf("EV n5_s3_operations %ld\nEV n5_s3_states %ld\nEV n5_s3_varlen %ld\n", nEv[2], nEv[1], nEv[3]);
}

int main(int argc, char ** argv) {
    if(std::string(argv[1]) == "gcs") {
        gcs();
    } else {
        const unsigned seed = std::stoul(argv[2]);
        switch(seed % 3) {
            case 0: n5<uint8_t>(seed, argv[3]); break;
            case 1: n5<float>(seed, argv[3]); break;
            default: n5<int16_t>(seed, argv[3]); break;
        }
    }
    std::printf("DONE\n");
    return 0;
}
