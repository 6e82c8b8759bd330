// Test module exposing the C++ API of z5 that z5py does not bind: strided views, raw chunks,
// utilities, codecs, geometry. Compiled in 4 parts (Z5VT_PART) in parallel.
#include "z5vt.h"

#if Z5VT_PART == 0
#include "z5/factory.hxx"
#include "z5/util/for_each.hxx"
#include "z5/util/threadpool.hxx"
#include "z5/attributes.hxx"

using namespace z5;

static FileMode::modes modeOf(const std::string & m) {
    if(m == "r") return FileMode::r;
    if(m == "r+") return FileMode::r_p;
    if(m == "w") return FileMode::w;
    if(m == "w-") return FileMode::w_m;
    return FileMode::a;
}

NB_MODULE(z5vt, m) {
    nb::class_<DS> c(m, "DS");
    c.def_prop_ro("shape", [](const DS & d) { return (*d).shape(); })
     .def_prop_ro("chunks", [](const DS & d) { return (*d).defaultChunkShape(); })
     .def_prop_ro("shards", [](const DS & d) { return (*d).shardShape(); })
     .def_prop_ro("chunks_per_dim", [](const DS & d) { return (*d).chunksPerDimension(); })
     .def_prop_ro("number_of_chunks", [](const DS & d) { return (*d).numberOfChunks(); })
     .def_prop_ro("size", [](const DS & d) { return (*d).size(); })
     .def_prop_ro("is_zarr", [](const DS & d) { return (*d).isZarr(); })
     .def_prop_ro("dtype", [](const DS & d) { return types::Datatypes::dtypeToN5()[(*d).getDtype()]; })
     .def_prop_ro("compressor", [](const DS & d) { std::string s; (*d).getCompressor(s); return s; })
     .def_prop_ro("copts", [](const DS & d) {
         types::CompressionOptions o; (*d).getCompressionOptions(o);
         nlohmann::json j; types::compressionTypeToJson(o, j); return j.dump(); })
     .def("close", [](DS & d) { d.d.reset(); })
     .def("chunk_exists", [](const DS & d, const Shape & id) { return d->chunkExists(id); })
     .def("chunk_size", [](const DS & d, const Shape & id) { return d->getChunkSize(id); })
     .def("chunk_shape", [](const DS & d, const Shape & id, bool h) { Shape s; d->getChunkShape(id, s, h); return s; })
     .def("chunk_shape_d", [](const DS & d, const Shape & id, unsigned i, bool h) { return d->getChunkShape(id, i, h); })
     .def("check_varlen", [](const DS & d, const Shape & id) { std::size_t n = 0; bool v = d->checkVarlenChunk(id, n); return std::make_pair(v, n); })
     .def("chunk_path", [](const DS & d, const Shape & id) { fs::path p; d->chunkPath(id, p); return p.string(); })
     .def("chunk_offset", [](const DS & d, const Shape & id) { Shape s; d->getChunkOffset(id, s); return s; })
     .def("remove_chunk", [](const DS & d, const Shape & id) { d->removeChunk(id); })
     .def("remove", [](const DS & d) { d->remove(); })
     .def("read_raw", [](const DS & d, const Shape & id) { std::vector<char> b; d->readRawChunk(id, b); return nb::bytes(b.data(), b.size()); })
     .def("check_request", [](const DS & d, const Shape & o, const Shape & s) { d->checkRequestShape(o, s); })
     .def("visit_chunks", [](const DS & d, int nt) {
         std::mutex mx; std::vector<std::tuple<int, Shape>> ev;
         util::parallel_for_each_chunk(*d, nt, [&](int tid, const Dataset &, const Shape & id) {
             std::lock_guard<std::mutex> g(mx); ev.emplace_back(tid, id); });
         return ev; })
     .def("visit_chunks_roi", [](const DS & d, const Shape & b, const Shape & e, int nt) {
         std::mutex mx; std::vector<std::tuple<int, Shape>> ev;
         util::parallel_for_each_chunk_in_roi(*d, b, e, nt, [&](int tid, const Dataset &, const Shape & id) {
             std::lock_guard<std::mutex> g(mx); ev.emplace_back(tid, id); });
         return ev; })
     .def("visit_blocks", [](const DS & d, const Shape & bs, int nt) {
         std::mutex mx; std::vector<std::tuple<int, Shape, Shape>> ev;
         util::parallel_for_each_block(*d, bs, nt, [&](int tid, const Dataset &, const Shape & o, const Shape & s) {
             std::lock_guard<std::mutex> g(mx); ev.emplace_back(tid, o, s); });
         return ev; })
     .def("visit_blocks_roi", [](const DS & d, const Shape & bs, const Shape & b, const Shape & e, int nt) {
         std::mutex mx; std::vector<std::tuple<int, Shape, Shape>> ev;
         util::parallel_for_each_block_in_roi(*d, bs, b, e, nt, [&](int tid, const Dataset &, const Shape & o, const Shape & s) {
             std::lock_guard<std::mutex> g(mx); ev.emplace_back(tid, o, s); });
         return ev; });
    m.def("open", [](const std::string & path, const std::string & key, const std::string & mode) {
        filesystem::handle::File f(path, FileMode(modeOf(mode)));
        DS d; d.d = openDataset(f, key); return d; },
        nb::arg("path"), nb::arg("key"), nb::arg("mode") = "a");
    m.def("create_file", [](const std::string & path, bool zarr, int fmt) {
        filesystem::handle::File f(path, FileMode(FileMode::a)); createFile(f, zarr, fmt); });
    m.def("create", [](const std::string & path, const std::string & key, const std::string & dtype,
                       const Shape & shape, const Shape & chunks, const std::string & comp,
                       const std::string & copts, double fill, const std::string & sep, int fmt,
                       const std::string & enc, const Shape & shards, const std::string & mode) {
        filesystem::handle::File f(path, FileMode(modeOf(mode)));
        DS d; d.d = createDataset(f, key, dtype, shape, chunks, comp, nlohmann::json::parse(copts), fill, sep, fmt, enc, shards);
        return d; },
        nb::arg("path"), nb::arg("key"), nb::arg("dtype"), nb::arg("shape"), nb::arg("chunks"),
        nb::arg("comp") = "raw", nb::arg("copts") = "{}", nb::arg("fill") = 0., nb::arg("sep") = ".",
        nb::arg("fmt") = 2, nb::arg("enc") = "default", nb::arg("shards") = Shape(), nb::arg("mode") = "a");
    // geometry
    nb::class_<util::Blocking>(m, "Blocking")
        .def(nb::init<const Shape &, const Shape &>())
        .def_prop_ro("number", &util::Blocking::numberOfBlocks)
        .def_prop_ro("per_dim", [](const util::Blocking & b) { return b.blocksPerDimension(); })
        .def("coord", [](const util::Blocking & b, size_t id) { Shape s; b.blockIdToBlockCoordinate(id, s); return s; })
        .def("id", [](const util::Blocking & b, const Shape & s) { return b.blockCoordinatesToBlockId(s); })
        .def("block_of", [](const util::Blocking & b, const Shape & s) { Shape o; b.coordinateToBlockCoordinate(s, o); return o; })
        .def("begin_shape", [](const util::Blocking & b, const Shape & s) { Shape o, p; b.getBlockBeginAndShape(s, o, p); return std::make_pair(o, p); })
        .def("begin_shape_id", [](const util::Blocking & b, size_t s) { Shape o, p; b.getBlockBeginAndShape(s, o, p); return std::make_pair(o, p); })
        .def("begin_end", [](const util::Blocking & b, const Shape & s) { Shape o, p; b.getBlockBeginAndEnd(s, o, p); return std::make_pair(o, p); })
        .def("begin_end_id", [](const util::Blocking & b, size_t s) { Shape o, p; b.getBlockBeginAndEnd(s, o, p); return std::make_pair(o, p); })
        .def("check", [](const util::Blocking & b, const Shape & s) { return b.checkBlockCoordinate(s); })
        .def("overlapping", [](const util::Blocking & b, const Shape & o, const Shape & s) { std::vector<Shape> l; b.getBlocksOverlappingRoi(o, s, l); return l; })
        .def("in_roi", [](const util::Blocking & b, const Shape & blk, const Shape & o, const Shape & s) {
            Shape br, sr, bb; bool c = b.getCoordinatesInRoi(blk, o, s, br, sr, bb); return std::make_tuple(c, br, sr, bb); });
    m.def("regular_grid", [](const Shape & a, const Shape & b) { std::vector<Shape> g; util::makeRegularGrid(a, b, g); return g; });
    m.def("par", [](int nThreads, std::size_t n) {   // event log of a parallel_foreach
        std::mutex mx; std::vector<std::pair<int, std::size_t>> ev;
        util::parallel_foreach(nThreads, n, [&](int tid, std::size_t i) {
            std::lock_guard<std::mutex> g(mx); ev.emplace_back(tid, i); });
        return ev; });
    z5vt_reg_signed(m);
    z5vt_reg_unsigned(m);
    z5vt_reg_float(m);
}

#else
#include "z5/multiarray/array_view.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/util/functions.hxx"

template<class T>
struct Codec : public z5::MixinTyped<T> {
    Codec(const z5::DatasetMetadata & m) : z5::MixinTyped<T>(m) {}
    const z5::compression::CompressorBase<T> & c() const { return *this->compressor_; }
};

template<class T>
static z5::DatasetMetadata metaFor(const std::string & dtype, const std::string & comp, const std::string & copts, bool zarr) {
    z5::DatasetMetadata m;
    z5::types::CompressionOptions o;
    z5::types::jsonToCompressionType(nlohmann::json::parse(copts), o);
    z5::createDatasetMetadata(dtype, Shape({10}), Shape({10}), zarr, comp, o, 0., ".", m);
    return m;
}

template<class T> struct is_cplx : std::false_type {};
template<class T> struct is_cplx<std::complex<T>> : std::true_type {};

template<class T>
static void reg(nb::module_ & m, const std::string & n) {
    using Arr = nb::ndarray<nb::numpy, T>;
    using CArr = nb::ndarray<nb::numpy, const T>;
    auto name = [&](const char * s) { return std::string(s) + "_" + n; };
    m.def(name("read_view").c_str(), [](const DS & d, Arr a, const Shape & begin, int nt) {
        Shape sh, st;
        for(size_t i = 0; i < a.ndim(); ++i) { sh.push_back(a.shape(i)); st.push_back(a.stride(i)); }
        z5::multiarray::ArrayView<T> v(a.data(), sh, st);
        nb::gil_scoped_release g;
        z5::multiarray::readSubarray<T>(*d, v, begin.begin(), nt); },
        nb::arg("ds"), nb::arg("a").noconvert(), nb::arg("begin"), nb::arg("nt") = 1);
    m.def(name("write_view").c_str(), [](const DS & d, CArr a, const Shape & begin, int nt) {
        Shape sh, st;
        for(size_t i = 0; i < a.ndim(); ++i) { sh.push_back(a.shape(i)); st.push_back(a.stride(i)); }
        z5::multiarray::ConstArrayView<T> v(a.data(), sh, st);
        nb::gil_scoped_release g;
        z5::multiarray::writeSubarray<T>(*d, v, begin.begin(), nt); },
        nb::arg("ds"), nb::arg("a").noconvert(), nb::arg("begin"), nb::arg("nt") = 1);
    m.def(name("write_scalar").c_str(), [](const DS & d, CArr val, const Shape & begin, const Shape & shape, int nt) {
        const T v = *val.data();
        nb::gil_scoped_release g;
        z5::multiarray::writeScalar<T>(*d, begin.begin(), shape.begin(), v, nt); },
        nb::arg("ds"), nb::arg("val").noconvert(), nb::arg("begin"), nb::arg("shape"), nb::arg("nt") = 1);
    m.def(name("read_chunk").c_str(), [](const DS & d, Arr a, const Shape & id) { return d->readChunk(id, a.data()); },
          nb::arg("ds"), nb::arg("a").noconvert(), nb::arg("id"));
    m.def(name("write_chunk").c_str(), [](const DS & d, CArr a, const Shape & id, bool varlen, size_t len) { d->writeChunk(id, a.data(), varlen, len); },
          nb::arg("ds"), nb::arg("a").noconvert(), nb::arg("id"), nb::arg("varlen") = false, nb::arg("len") = 0);
    m.def(name("check_type").c_str(), [](const DS & d) { d->checkRequestType(typeid(T)); });
    m.def(name("fill").c_str(), [](const DS & d, Arr a) { d->getFillValue(a.data()); }, nb::arg("ds"), nb::arg("a").noconvert());
    m.def(name("decompress").c_str(), [](const DS & d, nb::bytes b, Arr a) {
        std::vector<char> v(b.c_str(), b.c_str() + b.size());
        d->decompress(v, a.data(), a.size()); }, nb::arg("ds"), nb::arg("b"), nb::arg("a").noconvert());
    // codecs, directly
    using C = Codec<T>;
    nb::class_<C> c(m, name("Codec").c_str());
    c.def("__init__", [n](C * self, const std::string & comp, const std::string & copts, bool zarr) {
        new (self) C(metaFor<T>(n, comp, copts, zarr)); })
     .def("options", [](const C & c) { z5::types::CompressionOptions o; c.c().getOptions(o); nlohmann::json j; z5::types::compressionTypeToJson(o, j); return j.dump(); })
     .def("compress", [](const C & c, CArr a) {
         // exact-size heap copy so that any read past the end is caught
         std::unique_ptr<T[]> in(new T[a.size()]);
         std::copy(a.data(), a.data() + a.size(), in.get());
         std::vector<char> out; c.c().compress(in.get(), out, a.size());
         return nb::bytes(out.data(), out.size()); }, nb::arg("a").noconvert())
     .def("decompress", [](const C & c, nb::bytes b, Arr a) {
         std::unique_ptr<char[]> in(new char[b.size()]);
         std::copy(b.c_str(), b.c_str() + b.size(), in.get());
         std::unique_ptr<T[]> out(new T[a.size()]);
         std::copy(a.data(), a.data() + a.size(), out.get());
         c.c().decompress(in.get(), b.size(), out.get(), a.size());
         std::copy(out.get(), out.get() + a.size(), a.data()); }, nb::arg("b"), nb::arg("a").noconvert())
     .def("stress", [](const C & c, CArr a, int nThreads, int reps) {
         // concurrent use of one object; every thread works on its own rotation of the data
         const size_t N = a.size(); std::atomic<int> bad{0};
         const T * base = a.data();
         { nb::gil_scoped_release g;
         std::vector<std::thread> th;
         for(int t = 0; t < nThreads; ++t) th.emplace_back([&, t]() {
             try {
             for(int r = 0; r < reps; ++r) {
                 const size_t len = N - (size_t(t * 7 + r * 3) % (N / 2 + 1));
                 std::vector<T> in(len), out(len);
                 for(size_t i = 0; i < len; ++i) in[i] = base[(i + t * 13 + r) % N];
                 std::vector<char> b; c.c().compress(in.data(), b, len);
                 c.c().decompress(b, out.data(), len);
                 if(std::memcmp((void*)in.data(), (void*)out.data(), len * sizeof(T)) != 0) ++bad;
             } } catch(...) { ++bad; } });
         for(auto & x : th) x.join(); }
         return bad.load(); }, nb::arg("a").noconvert(), nb::arg("threads"), nb::arg("reps"));
    if constexpr (!is_cplx<T>::value) {
        m.def(name("unique").c_str(), [](const DS & d, int nt) { std::set<T> s; z5::util::unique<T>(*d, nt, s); return std::vector<T>(s.begin(), s.end()); });
        m.def(name("unique_counts").c_str(), [](const DS & d, int nt) {
            std::map<T, size_t> s; z5::util::uniqueWithCounts<T>(*d, nt, s);
            return std::vector<std::pair<T, size_t>>(s.begin(), s.end()); });
        m.def(name("remove_trivial").c_str(), [](const DS & d, int nt, bool spec, CArr val) {
            z5::util::removeTrivialChunks<T>(*d, nt, spec, *val.data()); }, nb::arg("ds"), nb::arg("nt"), nb::arg("spec"), nb::arg("val").noconvert());
    }
}

#if Z5VT_PART == 1
void z5vt_reg_signed(nb::module_ & m) {
    m.def("remove_dataset", [](const DS & d, int nt) { z5::util::removeDataset(*d, nt); });
    reg<int8_t>(m, "int8"); reg<int16_t>(m, "int16"); reg<int32_t>(m, "int32"); reg<int64_t>(m, "int64");
}
#elif Z5VT_PART == 2
void z5vt_reg_unsigned(nb::module_ & m) {
    reg<uint8_t>(m, "uint8"); reg<uint16_t>(m, "uint16"); reg<uint32_t>(m, "uint32"); reg<uint64_t>(m, "uint64");
}
#else
void z5vt_reg_float(nb::module_ & m) {
    reg<float>(m, "float32"); reg<double>(m, "float64");
    reg<std::complex<float>>(m, "complex64"); reg<std::complex<double>>(m, "complex128");
}
#endif
#endif
