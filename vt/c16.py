"""codecs: round trip for every option and size, streams exchanged with the codec's own library, concurrent use"""
import bz2, ctypes, gzip, json, lzma, os, struct, subprocess, zlib
import numpy as np
from . import core, decode
from .core import same

CODECS = [("raw", True), ("blosc", True), ("blosc", True), ("blosc", False), ("zlib", True), ("gzip", True), ("gzip", False), ("bzip2", True),
          ("xz", False), ("lz4", False), ("zstd", True), ("zstd", False)]
CNAMES = ["blosclz", "lz4", "lz4hc", "zlib", "zstd"]


def opts(r, comp, i):
    if comp == "raw":
        return {}
    if comp == "blosc":
        o = {"codec": CNAMES[i % 5], "level": r.randint(0, 9), "shuffle": i // 5 % 3, "blocksize": r.choice([0, 0, 1, 16, 128, 1000, 4096, 65536, 10 ** 6])}
        if r.random() < .2:
            o["nthreads"] = r.choice([1, 2, 4])
        return o
    if comp in ("zlib", "gzip"):
        return {"level": i % 10, "useZlib": comp == "zlib"}
    if comp == "bzip2":
        return {"level": i % 9 + 1}
    if comp == "xz":
        return {"level": i % 10}
    if comp == "lz4":
        return {"level": r.choice([0, 1, 6, 12, 65537])}
    return {"level": r.choice([-7, -1, 0, 1, 2, 3, 3, 4, 7, 10, 15, 19, 22])}


def data(c, n, dtype):
    """n elements; more structure than rand_data: repeats over long distances, blocks of noise between constant blocks"""
    r = c.rnd
    k = r.choice(["base", "base", "noise", "period", "mixed", "zeros", "far"])
    a = core.rand_data(c, (n,), dtype)
    if k == "noise":
        a = core.rand_data(c, (n,), dtype, "full")
    elif k == "period":
        p = r.choice([1, 2, 3, 7, 255, 256, 257, 4096])
        a = np.resize(core.rand_data(c, (p,), dtype, "full"), n)
    elif k == "mixed":
        a = core.rand_data(c, (n,), dtype, "full")
        for _ in range(r.randint(1, 6)):
            p = r.randrange(n)
            a[p:p + r.randint(1, max(1, n // 3))] = a[p]
    elif k == "zeros":
        a = np.zeros(n, dtype)
        if r.random() < .5:
            a[r.randrange(n)] = 1
    elif k == "far":
        h = core.rand_data(c, (max(1, n // 2),), dtype, "full")
        a = np.resize(h, n)
    return np.ascontiguousarray(a)


def sizes(c, item):
    r = c.rnd
    out = [1, r.randint(1, 40), r.randint(1, 3000)]
    b = 2 ** r.randint(6, 17) + r.choice([-1, 0, 1])
    out.append(max(1, b // item + r.choice([-1, 0, 0, 1])))
    if r.random() < .35:
        big = 2 ** r.randint(18, 21 if c.tier == "quick" else 23) + r.choice([-1, 0, 1, 12345])
        out.append(max(1, big // item))
    return out


_z = None


def zstd_stream(raw, level, frames, known, checksum):
    """streaming API of libzstd: several frames, without content size, with checksum, with an empty and a skippable frame"""
    global _z
    if _z is None:
        _z = ctypes.CDLL("libzstd.so.1")
        for f in ("ZSTD_createCCtx", "ZSTD_compressBound", "ZSTD_compress2", "ZSTD_CCtx_setParameter"):
            getattr(_z, f).restype = ctypes.c_void_p if f == "ZSTD_createCCtx" else ctypes.c_size_t
        _z.ZSTD_freeCCtx.argtypes = [ctypes.c_void_p]
    out = b""
    cuts = [len(raw) * k // frames for k in range(frames + 1)]
    for a, b in zip(cuts[:-1], cuts[1:]):
        x = raw[a:b]
        cc = ctypes.c_void_p(_z.ZSTD_createCCtx())
        _z.ZSTD_CCtx_setParameter(cc, 100, level)
        _z.ZSTD_CCtx_setParameter(cc, 200, int(known))
        _z.ZSTD_CCtx_setParameter(cc, 201, int(checksum))
        cap = _z.ZSTD_compressBound(ctypes.c_size_t(len(x))) + 64
        buf = ctypes.create_string_buffer(cap)
        n = _z.ZSTD_compress2(cc, buf, ctypes.c_size_t(cap), x, ctypes.c_size_t(len(x)))
        if n > cap:
            raise core.HarnessError("ZSTD_compress2")
        out += buf.raw[:n]
        _z.ZSTD_freeCCtx(cc)
    return out


def foreign(c, comp, raw):
    """-> [(description, stream)] made by the codec's own library"""
    r = c.rnd
    cut = r.randint(0, len(raw))
    if comp == "raw":
        return [("raw", raw)]
    if comp == "zlib":
        co = zlib.compressobj(r.randint(0, 9), zlib.DEFLATED, r.randint(9, 15), r.randint(1, 9), r.choice([0, 1, 2, 3, 4]))
        s = co.compress(raw[:cut]) + co.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH])) + co.compress(raw[cut:]) + co.flush()
        return [("zlib", zlib.compress(raw, r.randint(0, 9))), ("zlib-flushed", s)]
    if comp == "gzip":
        import io
        b = io.BytesIO()
        with gzip.GzipFile("name.bin", "wb", r.randint(0, 9), b, mtime=r.randint(0, 2 ** 31)) as g:
            g.write(raw)
        multi = gzip.compress(raw[:cut], r.randint(1, 9)) + gzip.compress(raw[cut:], r.randint(1, 9))
        return [("gzip-name", b.getvalue()), ("gzip-multi", multi)]
    if comp == "bzip2":
        return [("bz2", bz2.compress(raw, r.randint(1, 9))), ("bz2-multi", bz2.compress(raw[:cut], r.randint(1, 9)) + bz2.compress(raw[cut:], r.randint(1, 9)))]
    if comp == "xz":
        ck = r.choice([lzma.CHECK_NONE, lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_SHA256])
        out = [("xz", lzma.compress(raw, lzma.FORMAT_XZ, ck, r.randint(0, 6))),
               ("xz-multi", lzma.compress(raw[:cut], preset=1) + lzma.compress(raw[cut:], preset=2))]
        return out
    if comp == "lz4":
        from numcodecs.lz4 import compress
        return [("lz4", bytes(compress(raw, acceleration=r.choice([1, 3, 50])))[4:])]
    if comp == "zstd":
        from numcodecs import zstd
        return [("zstd", bytes(zstd.compress(raw, r.choice([-3, 1, 3, 9])))),
                ("zstd-frames", zstd_stream(raw, r.choice([1, 3]), r.choice([1, 2, 3]), r.random() < .5, r.random() < .5))]
    from numcodecs import blosc
    return [("blosc", bytes(blosc.compress(raw, r.choice(CNAMES).encode(), r.randint(0, 9), r.choice([-1, 0, 1, 2]), blocksize=r.choice([0, 0, 32, 4096]),
                                           typesize=r.choice([1, 2, 4, 8]))))]


def case(c, i):
    import z5vt
    r = c.rnd
    if i % 10 == 9:
        return stock(c, i)
    comp, zarr = CODECS[i % len(CODECS)]
    j = i // len(CODECS)
    dtype = core.PYTYPES[j % 10] if comp != "raw" or j % 12 < 10 else core.DTYPES[j % 12]
    dt = np.dtype(dtype)
    o = opts(r, comp, j)
    c.sig, c.sample = core.digest(comp, zarr, dtype, o, i), "%s zarr=%s %s %s" % (comp, zarr, dtype, o)
    if comp == "raw":               # raw chunks bypass the codec classes
        for k in range(3):
            whole(c, comp, zarr, dtype if dtype in core.PYTYPES else "int16", o, str(k))
        return
    co = getattr(z5vt, "Codec_" + dtype)(comp, json.dumps(o), zarr)
    rep = json.loads(co.options())
    for k, v in o.items():
        if k == "nthreads" or (k == "useZlib" and not zarr):
            continue
        if k in rep and rep[k] != v:
            c.fail("options", "%s: option %s = %r is reported as %r" % (c.sample, k, v, rep[k]))
    lib = {"zlib": "zlib", "gzip": "gzip"}.get(comp, comp)
    slow = comp in ("xz", "bzip2") or (comp == "zstd" and o["level"] > 9) or (comp == "blosc" and o["codec"] in ("zlib", "zstd") and o["level"] > 6)
    for n in sizes(c, dt.itemsize):
        if slow and n * dt.itemsize > 600000:
            n = 600000 // dt.itemsize
        a = data(c, n, dtype)
        raw = a.tobytes()
        c.note(comp, o, dtype, n)
        b = co.compress(a)
        c.ev("compressions")
        c.ev("bytes_compressed", len(raw))
        out = np.full(n, core.guard(dtype), dtype)
        co.decompress(b, out)
        if out.tobytes() != raw:
            c.fail("round-trip:" + comp, "%s n=%d: decompressed data differs" % (c.sample, n))
        try:
            ref = decode.decode(lib, b, len(raw))
        except Exception as e:
            c.fail("not-standard:" + comp, "%s n=%d: the codec's library cannot decode the stream: %r" % (c.sample, n, e))
        if ref != raw:
            c.fail("library-decodes-other-data:" + comp, "%s n=%d" % (c.sample, n))
        c.ev("library_decodes")
        if co.compress(a) != b and comp not in ("blosc",):
            c.fail("not-deterministic:" + comp, "%s n=%d: compressing twice gives different streams" % (c.sample, n))
        for what, s in foreign(c, comp, raw):
            out = np.full(n, core.guard(dtype), dtype)
            try:
                co.decompress(s, out)
            except Exception as e:
                c.fail("library-stream-refused:" + what, "%s n=%d: %r" % (c.sample, n, e))
            if out.tobytes() != raw:
                c.fail("library-stream:" + what, "%s n=%d: z5 decodes other data" % (c.sample, n))
            c.ev("library_streams")
            c.ev("stream_" + what)
        # a buffer that is too small for the data must not be overrun
        if n > 1 and comp != "raw":
            out = np.full(r.randint(1, n - 1), core.guard(dtype), dtype)
            core.raises(lambda: co.decompress(b, out))
            c.ev("short_buffers")
    if r.random() < .35:
        a = data(c, r.randint(50, 6000), dtype)
        bad = co.stress(a, r.randint(2, 8), 4 if slow else 12)
        c.ev("concurrent_uses")
        if bad:
            c.fail("concurrent:" + comp, "%s: %d of the concurrent round trips failed" % (c.sample, bad))
    if j % 4 == 0:
        whole(c, comp, zarr, dtype, o)


def whole(c, comp, zarr, dtype, o, name="w"):
    """the same codec behind a dataset with one big chunk"""
    import z5vt
    n = c.rnd.randint(1, 70000)
    fmt = "zarr2" if zarr and comp != "xz" else "n5"
    path = os.path.join(c.dir, name + (".zr" if fmt == "zarr2" else ".n5"))
    z5vt.create_file(path, fmt == "zarr2", 2)
    if dtype not in core.PYTYPES:
        return
    ds = z5vt.create(path, "d", dtype, [n], [n], comp, json.dumps(o), 0., ".", 2)
    a = data(c, n, dtype)
    core.fn("write_view", dtype)(ds, a, [0], 1)
    del ds
    ds = z5vt.open(path, "d")
    out = np.full(n, core.guard(dtype), dtype)
    core.fn("read_view", dtype)(ds, out, [0], 1)
    if not same(out, a):
        c.fail("dataset-round-trip:" + comp, "%s %s n=%d: %s" % (comp, o, n, core.first_diff(out, a)))
    c.ev("datasets")


_p = None


def ask(line):
    global _p
    if _p is None or _p.poll() is not None:
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        _p = subprocess.Popen([os.environ["VT_BIN_zlibstock"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)
    _p.stdin.write(line + "\n")
    _p.stdin.flush()
    a = _p.stdout.readline().strip()
    if not a:
        rc = _p.wait()
        return "crash rc=%d" % rc
    return a


def stock(c, i):
    """the stock zlib back end of the gzip/zlib codec (a build option)"""
    r = c.rnd
    dtype = r.choice(["uint8", "int16", "float32", "float64"])
    dt = np.dtype(dtype)
    comp, lev = r.choice(["zlib", "gzip"]), i // 10 % 10
    c.sig, c.sample = core.digest("stock", comp, dtype, lev, i), "stock %s level %d %s" % (comp, lev, dtype)
    fin, fout = os.path.join(c.dir, "in"), os.path.join(c.dir, "out")

    def do(op, b, n):
        open(fin, "wb").write(b)
        a = ask("%s %d %d %d %s %s %d" % (op, lev, comp == "zlib", dt.itemsize, fin, fout, n))
        if a.startswith("crash"):
            c.fail("stock-crash", "%s n=%d: %s" % (c.sample, n, a))
        if a != "ok":
            c.fail("stock-error:" + op, "%s n=%d: %s" % (c.sample, n, a))
        return open(fout, "rb").read()
    for n in sizes(c, dt.itemsize):
        a = data(c, n, dtype)
        raw = a.tobytes()
        b = do("c", raw, n)
        try:
            ref = decode.decode(comp, b, len(raw))
        except Exception as e:
            c.fail("stock-not-standard", "%s n=%d: %r" % (c.sample, n, e))
        if ref != raw or do("d", b, n) != raw:
            c.fail("stock-round-trip", "%s n=%d" % (c.sample, n))
        for what, s in foreign(c, comp, raw):
            if do("d", s, n) != raw:
                c.fail("stock-library-stream:" + what, "%s n=%d" % (c.sample, n))
        c.ev("stock_round_trips")
