"""on-disk format conformance, both directions"""
import json, os, shutil, warnings
import numpy as np
from . import core, decode, encode
from .session import Session
from .core import same, first_diff
warnings.simplefilter("ignore")


def decode_check(c, se_or_spec, dspath, model, pad=True, key="decode"):
    s = se_or_spec
    try:
        m = decode.meta(dspath, s.fmt)
        a, st = decode.load(m, pad)
    except (decode.FormatError, KeyError, ValueError, EOFError, OSError, RuntimeError) as e:
        c.fail("%s:not-conforming" % key, "%s: %r (%s)" % (dspath, e, s.desc()))
    except Exception as e:
        c.fail("%s:not-conforming" % key, "%s: %r (%s)" % (dspath, e, s.desc()))
    c.ev("independent_decodes")
    c.ev("chunks_decoded", len(st))
    if not same(a, model):
        c.fail("%s:values" % key, "%s: %s" % (s.desc(), first_diff(a, model)))
    return m, st


def meta_check(c, s, m, via="cpp"):
    exp = (tuple(s.shape), tuple(s.chunks), tuple(s.shards), np.dtype(s.dtype), s.comp)
    got = (m.shape, m.chunks, m.shards, m.dt, m.codec)
    if s.fmt == "zarr2" and s.comp == "gzip" and via == "py":
        exp = exp[:4] + ("zlib",)     # z5py treats gzip and zlib as one codec for zarr v2
    if got != exp:
        c.fail("metadata", "stored %s, created with %s" % (got, exp))
    if s.fmt != "n5" and not same(np.array([m.fill]), np.array([s.fillval()])):
        c.fail("metadata-fill", "stored %r, created with %r" % (m.fill, s.fillval()))
    if s.fmt == "zarr2" and m.sep != s.sep or s.fmt == "zarr3" and (m.enc, m.sep) != (s.enc, s.sep):
        c.fail("metadata-separator", "%s %s" % (m.sep, s.desc()))
    lev = s.opts.get("level", s.opts.get("clevel"))
    names = {("n5", "bzip2"): "blockSize", ("n5", "xz"): "preset"}
    if lev is not None:
        n = "clevel" if s.comp == "blosc" else names.get((s.fmt, s.comp), "level")
        if not (s.fmt == "n5" and s.comp == "lz4") and m.copts.get(n) != lev:
            c.fail("metadata-level", "stored %s, created with %s" % (m.copts, s.opts))
    if s.comp == "blosc":
        sh = s.opts.get("shuffle")
        if sh is not None and m.copts["shuffle"] not in (sh, ["noshuffle", "shuffle", "bitshuffle"][sh]):
            c.fail("metadata-shuffle", "stored %s, created with %s" % (m.copts, s.opts))
        if s.opts.get("codec", m.copts["cname"]) != m.copts["cname"] or s.opts.get("blocksize", m.copts["blocksize"]) != m.copts["blocksize"]:
            c.fail("metadata-blosc", "stored %s, created with %s" % (m.copts, s.opts))
    c.ev("metadata_compared")


def lib_read(c, s, path, model):
    path = os.path.abspath(path)
    """the same data read by zarr-python / tensorstore"""
    import tensorstore as ts
    if s.fmt == "n5":
        if s.comp == "lz4":
            return
        if s.comp == "blosc":       # tensorstore does not know the 'nthreads' of N5-blosc
            p = os.path.join(path, s.key, "attributes.json")
            j = json.load(open(p))
            j["compression"].pop("nthreads", None)
            json.dump(j, open(p, "w"))
        t = ts.open({"driver": "n5", "kvstore": {"driver": "file", "path": os.path.join(path, s.key)}}).result()
        got = t.read().result().T
    elif s.dtype.startswith("complex"):
        return
    elif c.rnd.random() < .5:
        import zarr
        got = zarr.open_array(os.path.join(path, s.key), mode="r")[...]
    else:
        dr = "zarr" if s.fmt == "zarr2" else "zarr3"
        t = ts.open({"driver": dr, "kvstore": {"driver": "file", "path": os.path.join(path, s.key)}}).result()
        got = t.read().result()
    c.ev("library_reads")
    got = np.ascontiguousarray(got)
    if not same(got, model):
        c.fail("library-read", "%s: %s" % (s.desc(), first_diff(got, model)))


def case(c, i):
    k = i % 8
    if k in (0, 1, 2, 3):
        return z5_writes(c, i)
    if k in (4, 5, 6):
        return foreign(c, i)
    return library_writes(c, i)


def z5_writes(c, i):
    r = c.rnd
    combos = [(f, co, d) for f in core.FORMATS for co in core.COMP[f] for d in (core.DTYPES if f == "zarr2" else core.PYTYPES)]
    f, co, d = combos[(i // 8 * 4 + i % 8) * 61 % len(combos)]
    s = core.rand_spec(c, fmt=f, comp=co, dtype=d, cpp=d not in core.PYTYPES or r.random() < .2, maxel=1500)
    if i % 120 == 1:
        s = core.large_spec(c, fmt=f, comp=co, dtype=d)
        c.ev("large_datasets")
    se = Session(c, s, n_threads=r.choice([1, 1, 4]))
    c.sig, c.sample = core.digest("w", s.desc(), i), s.desc()
    c.nontrivial = max(s.grid) > 1
    for _ in range(r.randint(2, 6)):
        se.random_write()
    m, st = decode_check(c, s, se.dspath, se.model)
    meta_check(c, s, m, se.via)
    se.check(how="getitem" if se.pyio else "cview")
    if i % 3 == 0:
        lib_read(c, s, se.path, se.model)
    # containers and groups carry the version markers
    for p in (se.path,):
        if f == "n5":
            ok = "n5" in json.load(open(os.path.join(p, "attributes.json")))
        elif f == "zarr2":
            ok = json.load(open(os.path.join(p, ".zgroup"))) == {"zarr_format": 2}
        else:
            j = json.load(open(os.path.join(p, "zarr.json")))
            ok = j["zarr_format"] == 3 and j["node_type"] == "group"
        if not ok:
            c.fail("container-metadata", p)


def foreign(c, i):
    r = c.rnd
    combos = [(f, co, d) for f in core.FORMATS for co in core.COMP[f] for d in (core.DTYPES if f == "zarr2" else core.PYTYPES)]
    f, co, d = combos[(i // 8 * 3 + i % 8 - 4) * 61 % len(combos)]
    s = core.rand_spec(c, fmt=f, comp=co, dtype=d, cpp=True, maxel=1200)
    s.opts = {}
    if f == "zarr3":
        s.sep = r.choice([".", "/"])
    s.full_edges = f == "n5" and r.random() < .3
    s.pad_garbage = f != "n5" and r.random() < .5
    path = os.path.join(c.dir, "x" + s.file_ext())
    exp, st = encode.write(c, path, s)
    c.sig, c.sample = core.digest("f", s.desc(), i), "foreign " + s.desc()
    c.nontrivial = len(st) > 1
    # the independent decoder agrees with the independent encoder (harness self check)
    m = decode_meta_soft(path, s)
    before = core.snapshot(path)
    import z5vt
    ds = z5vt.open(path, s.key, "r")
    for _ in range(4):
        lo, hi = core.rand_roi(c, s.shape, s) if r.random() < .7 else ((0,) * s.ndim, s.shape)
        v, base = core.strided(c, [b - a for a, b in zip(lo, hi)], s.dtype)
        core.fn("read_view", s.dtype)(ds, v, list(lo), r.choice([1, 2, 4]))
        c.ev("foreign_reads")
        if not same(v.copy(), exp[core.sl(lo, hi)]):
            c.fail("foreign-read", "%s %s:%s: %s" % (s.desc(), lo, hi, first_diff(v.copy(), exp[core.sl(lo, hi)])))
    if d in core.PYTYPES:
        fp = core.open_file(path, f, "r")
        got = fp[s.key][:]
        if not same(got, exp):
            c.fail("foreign-read", "z5py %s: %s" % (s.desc(), first_diff(got, exp)))
    for cid in core.all_chunks(s):
        if ds.chunk_exists(list(cid)) != (cid in st):
            c.fail("foreign-exists", "%s %s" % (cid, s.desc()))
    if core.snap_diff(before, core.snapshot(path)):
        c.fail("read-changed-files", "%s" % core.snap_diff(before, core.snapshot(path))[:5])
    # partial writes on top of foreign data keep it readable for both
    if r.random() < .7:
        ds = z5vt.open(path, s.key, "a")
        for _ in range(r.randint(1, 3)):
            lo, hi = core.rand_roi(c, s.shape, s)
            x = core.rand_data(c, [b - a for a, b in zip(lo, hi)], s.dtype)
            core.fn("write_view", s.dtype)(ds, x, list(lo), r.choice([1, 3]))
            exp[core.sl(lo, hi)] = x
        c.ev("writes_on_foreign")
        out = np.empty(s.shape, s.dtype)
        core.fn("read_view", s.dtype)(ds, out, [0] * s.ndim, 1)
        if not same(out, exp):
            c.fail("foreign-rewrite", "%s: %s" % (s.desc(), first_diff(out, exp)))
        if not s.full_edges:
            m = decode_meta_soft(path, s)
            try:
                a, _ = decode.load(m, False)
            except Exception as e:
                c.fail("foreign-rewrite:not-conforming", "%r %s" % (e, s.desc()))
            if not same(a, exp):
                c.fail("foreign-rewrite:values", "%s: %s" % (s.desc(), first_diff(a, exp)))


def decode_meta_soft(path, s):
    m = decode.Meta()
    m.dir = os.path.join(path, s.key)
    m.shape, m.chunks, m.shards, m.dt, m.codec, m.fmt = tuple(s.shape), tuple(s.chunks), tuple(s.shards), np.dtype(s.dtype), s.comp, s.fmt
    m.sep, m.enc, m.fill, m.grid = s.sep, s.enc, s.fillval(), s.grid
    m.stream = getattr(s, "stream", s.comp)
    return m


def library_writes(c, i):
    """data written by zarr-python and tensorstore"""
    r = c.rnd
    s = core.rand_spec(c, maxel=1200, dtype=r.choice(core.PYTYPES))
    s.opts = {}
    if s.fmt == "n5" and s.comp == "lz4":
        s.comp = "gzip"
    path = os.path.join(c.dir, "x" + s.file_ext())
    encode.root(path, s.fmt)
    exp = np.full(s.shape, s.fillval(), dtype=s.dtype)
    writes = []
    for _ in range(r.randint(0, 4)):
        lo, hi = core.rand_roi(c, s.shape, s)
        x = core.rand_data(c, [b - a for a, b in zip(lo, hi)], s.dtype)
        writes.append((core.sl(lo, hi), x))
        exp[core.sl(lo, hi)] = x
    lib = "ts" if s.fmt == "n5" or r.random() < .5 else "zarr"
    kv = {"driver": "file", "path": os.path.join(path, s.key)}
    if s.fmt == "n5":
        import tensorstore as ts
        _, j = encode.metadata(c, s, False)
        j.pop("compressionType", None)
        j.setdefault("compression", {"type": s.comp})
        if "level" in j["compression"]:
            j["compression"]["level"] = max(1, j["compression"]["level"])
        j["compression"].pop("nthreads", None)
        t = ts.open({"driver": "n5", "kvstore": kv, "metadata": j}, create=True).result()
        for sl, x in writes:
            t[tuple(reversed(sl))].write(x.T).result()
    elif lib == "ts":
        import tensorstore as ts
        _, j = encode.metadata(c, s, False)
        if s.fmt == "zarr2":
            j.setdefault("dimension_separator", s.sep)
            if j["compressor"]:
                j["compressor"].pop("checksum", None)
            if j["dtype"][1:] in ("i1", "u1"):
                j["dtype"] = "|" + j["dtype"][1:]
        t = ts.open({"driver": "zarr" if s.fmt == "zarr2" else "zarr3", "kvstore": kv, "metadata": j}, create=True).result()
        for sl, x in writes:
            t[sl].write(x).result()
    else:
        import zarr
        kw = {}
        if s.fmt == "zarr2":
            import numcodecs as nc
            kw["compressors"] = {"raw": None, "blosc": nc.Blosc("zstd", 3, 1), "zlib": nc.Zlib(2), "bzip2": nc.BZ2(3), "gzip": nc.GZip(4), "zstd": nc.Zstd(2)}[s.comp]
            kw["chunk_key_encoding"] = {"name": "v2", "separator": s.sep}
        else:
            from zarr.codecs import BloscCodec, GzipCodec, ZstdCodec
            kw["compressors"] = {"raw": None, "blosc": BloscCodec(cname="lz4", clevel=4, shuffle="bitshuffle"), "gzip": GzipCodec(level=3), "zstd": ZstdCodec(level=2)}[s.comp]
            kw["chunk_key_encoding"] = {"name": s.enc, "separator": s.sep}
            if s.shards:
                kw["shards"] = s.shards
        z = zarr.create_array(path, name=s.key, shape=s.shape, chunks=s.chunks, dtype=s.dtype, fill_value=s.fillval().item(),
                              zarr_format=2 if s.fmt == "zarr2" else 3, **kw)
        for sl, x in writes:
            z[sl] = x
    c.sig, c.sample = core.digest("l", s.desc(), i), lib + " " + s.desc()
    c.nontrivial = bool(writes)
    f = core.open_file(path, s.fmt, "r")
    d = f[s.key]
    d.n_threads = r.choice([1, 4])
    c.ev("library_written_reads")
    if d.shape != s.shape or d.chunks != s.chunks or d.dtype != np.dtype(s.dtype) or not same(d[:], exp):
        c.fail("library-written", "%s %s: %s" % (lib, s.desc(), first_diff(d[:], exp)))
    for _ in range(3):
        lo, hi = core.rand_roi(c, s.shape, s)
        if not same(d[core.sl(lo, hi)], exp[core.sl(lo, hi)]):
            c.fail("library-written", "%s %s %s:%s" % (lib, s.desc(), lo, hi))
