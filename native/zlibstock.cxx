// the zlib/gzip codec with its stock zlib back end (the build uses libdeflate when it is installed)
// stdin: lines "c|d <level> <useZlib> <itemsize> <infile> <outfile> <n items>"; stdout: "ok" or "err <what>"
#undef WITH_LIBDEFLATE
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include "z5/compression/zlib_compressor.hxx"

template<class T> void run(char op, int level, bool z, const std::string & in, const std::string & out, size_t n) {
    z5::types::CompressionOptions o;
    o["level"] = level;
    o["useZlib"] = z;
    z5::DatasetMetadata m(z5::types::uint8, {10}, {10}, true, z5::types::zlib, o);
    z5::compression::ZlibCompressor<T> c(m);
    std::ifstream f(in, std::ios::binary);
    const std::vector<char> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    std::ofstream g(out, std::ios::binary);
    if(op == 'c') {
        std::unique_ptr<T[]> a(new T[n]);
        std::memcpy(a.get(), b.data(), n * sizeof(T));
        std::vector<char> r;
        c.compress(a.get(), r, n);
        g.write(r.data(), r.size());
    } else {
        std::unique_ptr<char[]> a(new char[b.size()]);
        std::memcpy(a.get(), b.data(), b.size());
        std::unique_ptr<T[]> r(new T[n]);
        std::memset(r.get(), 0xa5, n * sizeof(T));
        c.decompress(a.get(), b.size(), r.get(), n);
        g.write(reinterpret_cast<char *>(r.get()), n * sizeof(T));
    }
}

int main() {
    char op; int level, z, item; std::string in, out; size_t n;
    while(std::cin >> op >> level >> z >> item >> in >> out >> n) {
        try {
            if(item == 1) { run<uint8_t>(op, level, z, in, out, n); }
            else if(item == 2) { run<int16_t>(op, level, z, in, out, n); }
            else if(item == 4) { run<float>(op, level, z, in, out, n); }
            else { run<double>(op, level, z, in, out, n); }
            std::cout << "ok" << std::endl;
        } catch(std::exception & e) { std::cout << "err " << e.what() << std::endl; }
    }
}
