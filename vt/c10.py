"""metadata round-trips; metadata with unsupported features is refused; absent optional fields take their defaults"""
import copy, json, os
import numpy as np
from . import core, decode, encode, c03
from .core import same, first_diff, fn
from .session import Session

COMBOS = [(f, d, k) for f in core.FORMATS for d in core.DTYPES for k in core.COMP[f]
          if d in core.PYTYPES or f == "zarr2"]
NAME = {"n5": {}, "zarr2": {"bzip2": "bz2", "gzip": "zlib"}, "zarr3": {"gzip": "zlib"}}     # names the open dataset reports (see DESIGN.md)
DEFLEVEL = {"xz": 6, "lz4": 6, "zstd": 3}


def case(c, i):
    if i % 5 < 2:
        return round_trip(c, i // 5 * 2 + i % 5)
    return foreign(c, i // 5 * 3 + i % 5 - 2)


def view_py(d):
    return dict(shape=d.shape, chunks=d.chunks, shards=tuple(d.shards) if d.shards else (), dtype=d.dtype, comp=d.compression, copts=d.compression_opts,
                zarr=d.is_zarr, size=d.size, ndim=d.ndim, grid=tuple(d.chunks_per_dimension), n=d.number_of_chunks, len=len(d))


def view_cpp(d, dt=None):
    dt = d.dtype or dt      # complex types have no name in the map the harness uses
    a = np.zeros(1, dt)
    fn("fill", dt)(d, a)
    return dict(shape=tuple(d.shape), chunks=tuple(d.chunks), shards=tuple(d.shards), dtype=np.dtype(dt), comp=d.compressor,
                copts=json.loads(d.copts), zarr=d.is_zarr, size=d.size, grid=tuple(d.chunks_per_dim), n=d.number_of_chunks, fill=a.tobytes())


def expected_copts(s, via):
    if s.comp == "raw":
        return None
    if s.comp == "blosc":
        return {"codec": s.opts.get("codec", "lz4"), "level": s.opts.get("clevel", s.opts.get("level", 5)), "shuffle": s.opts.get("shuffle", 1),
                "blocksize": s.opts.get("blocksize", 0), "nthreads": s.opts.get("nthreads", 1)}
    # (complex datasets are written by the harness with level 5)
    o = {"level": s.opts.get("level", 5 if s.dtype.startswith("complex") else DEFLEVEL.get(s.comp, 5))}
    if s.comp in ("gzip", "zlib"):
        o["useZlib"] = s.comp == "zlib" or (s.fmt == "zarr2" and via == "py")
    return o


def expected(s, via):
    comp = NAME[s.fmt].get(s.comp, s.comp)
    return dict(shape=tuple(s.shape), chunks=tuple(s.chunks), shards=tuple(s.shards), dtype=np.dtype(s.dtype), zarr=s.zarr,
                size=int(np.prod(s.shape)), grid=s.grid, n=int(np.prod(s.grid)), fill=np.array([s.fillval()]).tobytes(),
                comp=comp, copts=expected_copts(s, via), ndim=s.ndim, len=s.shape[0])


def compare(c, s, v, exp, what):
    c.ev("views")
    for k in v:
        g, e = v[k], exp[k]
        if k == "copts" and what.startswith("py"):
            e = dict(e or {})
            e.pop("useZlib", None)
        if k == "fill" and s.fillval() != s.fillval():      # any NaN
            if np.frombuffer(g, s.dtype)[0] != np.frombuffer(g, s.dtype)[0]:
                continue
        if g != e:
            c.fail("%s:%s" % (what.split()[0], k), "%s %s: %r, created with %r (%s)" % (what, k, g, e, s.desc()))


def wide_opts(c, s):
    r = c.rnd
    if s.comp == "blosc":
        s.opts = {k: v for k, v in dict(codec=r.choice(["lz4", "lz4hc", "blosclz", "zlib", "zstd"]), shuffle=r.randint(0, 2),
                                        blocksize=r.choice([0, 1, 17, 4096, 2 ** 20, 2 ** 30])).items() if r.random() < .7}
        if r.random() < .7:
            s.opts["level" if s.fmt == "zarr3" else "clevel"] = r.randint(0, 9)
        if s.fmt == "n5" and r.random() < .5:
            s.opts["nthreads"] = r.randint(1, 8)
    elif s.comp == "zstd":
        s.opts = {"level": r.choice([-100, -7, 0, 1, 19, 22])}
    elif s.comp == "xz":
        s.opts = {"level": r.randint(0, 9)}
    elif s.comp == "lz4":
        s.opts = {"level": r.choice([1, 65536, 2 ** 20])}
    elif s.comp in ("gzip", "zlib"):
        s.opts = {"level": r.randint(0, 9)}
    elif s.comp == "bzip2":
        s.opts = {"level": r.randint(1, 9)}


def meta_file(d, fmt):
    return os.path.join(d, {"n5": "attributes.json", "zarr2": ".zarray", "zarr3": "zarr.json"}[fmt])


def rb(p):
    with open(p, "rb") as f:
        return f.read()


def round_trip(c, i):
    r = c.rnd
    f, dt, comp = COMBOS[i % len(COMBOS)]
    s = core.rand_spec(c, fmt=f, dtype=dt, comp=comp, cpp=r.random() < .3, maxel=r.choice([200, 1500]))
    s.key = r.choice(["d", "d", "a/b/d", "x y/\u00fc"])
    if comp == "gzip" and f == "zarr2" and r.random() < .7:
        pass
    wide = r.random() < .5
    if wide:
        wide_opts(c, s)
    if r.random() < .1 and f != "n5":       # large geometry: nothing is allocated for it
        s.shape = tuple(x * r.choice([1, 2 ** 33, 10 ** 6]) for x in s.shape) if s.ndim == 1 else (s.shape[0] * 2 ** 31,) + s.shape[1:]
        wide = True
    py_ok = dt in core.PYTYPES and all(a <= b for a, b in zip(s.chunks, s.shape))
    via = r.choice(["py", "cpp"]) if py_ok else "cpp"
    c.sig, c.sample = core.digest(s.desc(), via, i), via + " " + s.desc()
    path = os.path.join(c.dir, "m" + s.file_ext())
    import z5vt
    fl = core.open_file(path, s)
    exp = expected(s, via)
    if "/" in s.key:
        fl.require_group(s.key.rsplit("/", 1)[0])
    if via == "py":
        # chunk lengths beyond the shape are limited to it
        req = copy.copy(s)
        if not s.shards and any(a == b for a, b in zip(s.chunks, s.shape)) and r.random() < .4:
            req.chunks = tuple(a + r.choice([0, 1, 7, 10 ** 6]) if a == b else a for a, b in zip(s.chunks, s.shape))
            c.ev("chunks_beyond_the_shape")
        compare(c, s, view_py(core.create_py(fl, req)), exp, "py created")
    else:
        d = core.create_cpp(path, s)
        compare(c, s, view_cpp(d, dt), exp, "cpp created")
        d.close()
    dp = os.path.join(path, s.key)
    mf = meta_file(dp, s.fmt)
    raw = rb(mf)
    try:
        m = decode.meta(dp, s.fmt)
    except Exception as e:
        if not dt.startswith("complex"):
            c.fail("not-conforming", "%r %s" % (e, s.desc()))
        m = None
    if m is not None:
        c03.meta_check(c, s, m, via)
        if s.fmt == "zarr3" and s.comp == "blosc" and m.copts["shuffle"] != "noshuffle" and m.copts.get("typesize") != np.dtype(dt).itemsize:
            c.fail("typesize", "%s %s" % (m.copts, s.desc()))
    snap = core.snapshot(path)

    def views(what):
        for mode in ("r", "r+", "a"):
            if dt in core.PYTYPES:
                ff = core.open_file(path, s, mode) if r.random() < .5 else core.open_file(path, "n5" if s.fmt == "n5" else "zarr2", mode)
                dd = ff[s.key]
                compare(c, s, view_py(dd), exp, "py %s %s" % (what, mode))
                if mode != "r" and "/" in s.key and r.random() < .3:
                    dd = ff[s.key.rsplit("/", 1)[0]][s.key.rsplit("/", 1)[1]]
                    compare(c, s, view_py(dd), exp, "py via group %s" % mode)
            compare(c, s, view_cpp(z5vt.open(path, s.key, mode), dt), exp, "cpp %s %s" % (what, mode))
    views("opened")
    diff = core.snap_diff(snap, core.snapshot(path))
    if diff:
        c.fail("opening-modified", "%s (%s)" % (diff, s.desc()))
    if wide:
        return
    # data access does not touch the metadata
    se = Session.__new__(Session)
    se.c, se.s, se.path, se.f, se.nt, se.via = c, s, path, fl, 1, via
    se.pyio = dt in core.PYTYPES
    se.model = np.full(s.shape, s.fillval(), dtype=dt)
    se.written = np.zeros(s.grid, bool)
    se.reopen()
    for _ in range(r.randint(1, 6)):
        se.threads(r.choice([1, 3]))
        se.random_write()
    se.check()
    c.ev("data_histories")
    if rb(mf) != raw:
        c.fail("metadata-modified", "by reading and writing data: %r -> %r (%s)" % (raw, rb(mf), s.desc()))
    extra = [p for p in core.snap_diff(snap, core.snapshot(path)) if os.path.basename(p.rstrip("/")).startswith((".z", "zarr.json", "attributes.json"))]
    if extra:
        c.fail("metadata-modified", "%s appeared or changed (%s)" % (extra, s.desc()))
    views("after writing")


# ---------------------------------------------------------------------------------------------
# foreign documents

class Drop:
    pass


def at(j, path):
    for k in path[:-1]:
        j = j[k]
    return j, path[-1]


def put(path, val):
    def f(j, s):
        d, k = at(j, path)
        if val is Drop:
            if k not in d:
                return False
            del d[k]
        else:
            if isinstance(d, dict) and d.get(k, Drop) == val:
                return False
            d[k] = copy.deepcopy(val)
    return f


def inner(j):
    """the codecs of a chunk"""
    cs = j["codecs"]
    return cs[0]["configuration"]["codecs"] if cs[0]["name"] == "sharding_indexed" else cs


def codecs(fun):
    def f(j, s):
        return fun(inner(j), s)
    return f


def conf(fun):
    """on the sharding configuration"""
    def f(j, s):
        if not s.shards:
            return False
        return fun(j["codecs"][0]["configuration"], j, s)
    return f


def big(cs, s):
    if np.dtype(s.dtype).itemsize == 1:
        return False
    cs[0]["configuration"] = {"endian": "big"}


def swapped(j, s):
    if np.dtype(s.dtype).itemsize == 1:
        return False
    j["dtype"] = ">" + j["dtype"][1:]


def rank(k):
    def f(j, s):
        d, kk = at(j, k)
        d[kk] = d[kk] + [1] if s.ndim == 1 or s.shape[-1] % 2 else d[kk][:-1]
    return f


def zero(k):
    def f(j, s):
        d, kk = at(j, k)
        d[kk] = list(d[kk])
        d[kk][sum(s.shape) % s.ndim] = 0
    return f


def nondiv(k, j, s):
    k["chunk_shape"] = list(k["chunk_shape"])
    a = sum(s.shape) % s.ndim
    n = s.shards[a]
    bad = [x for x in range(1, n + 3) if n % x]
    k["chunk_shape"][a] = bad[sum(s.chunks) % len(bad)]


def bad_key(what):
    def f(k, j, s):
        k.update(copy.deepcopy(what))
    return f


GZ, BY, CRC = {"name": "gzip", "configuration": {"level": 3}}, {"name": "bytes", "configuration": {"endian": "little"}}, {"name": "crc32c"}


def missing(*ks):
    return [("missing-" + k, put([k], Drop)) for k in ks]


def of(field, path, vals):
    return [("%s:%s" % (field, json.dumps(v)), put(path, v)) for v in vals]


def tail(*extra):
    def f(cs, s):
        cs[:] = [cs[0]] + copy.deepcopy(list(extra))
    return f


def ins(k, x):
    def f(cs, s):
        cs.insert(min(k, len(cs)), copy.deepcopy(x))
    return f


def transpose(s):
    return {"name": "transpose", "configuration": {"order": list(reversed(range(s.ndim)))}}


def around(first, x=None):
    def f(j, s):
        if not s.shards:
            return False
        y = copy.deepcopy(x) if x else transpose(s)
        j["codecs"] = [y] + j["codecs"] if first else j["codecs"] + [y]
    return f


def nested(cs, s):
    cs[:] = [{"name": "sharding_indexed", "configuration": {"chunk_shape": [1] * s.ndim, "codecs": copy.deepcopy(cs), "index_codecs": [BY, CRC]}}]


UNSUPPORTED = {
    "zarr2": [("big-endian", swapped)] + of("dtype", ["dtype"], ["|b1", "<f2", "|S4", "<U5", "<M8[ns]", "<m8[s]", "|V3", "|O", "<i16", "<u3", "", "int32", [["a", "<i4"]], [["a", "<i4"], ["b", "<f8"]], None, 5])
    + of("order", ["order"], ["F", "A", "", None])
    + of("filters", ["filters"], [[{"id": "delta", "dtype": "<i4"}], [{"id": "shuffle", "elementsize": 4}], [{"id": "fixedscaleoffset"}], [{"id": "vlen-utf8"}], [{"id": "zlib", "level": 1}]])
    + of("compressor", ["compressor"], [{"id": "lzma", "preset": 1}, {"id": "snappy"}, {"id": "pcodec"}, {"id": "blosc2"}, {"id": "fletcher32"}, {"id": "jpeg2k"}, {"id": "GZIP", "level": 1}, {"id": ""}, {"id": 3}, {}, {"level": 5}, "gzip", 5, [{"id": "gzip", "level": 5}]])
    + of("zarr_format", ["zarr_format"], [3, 1, 4, 20, "2"])
    + [("rank-chunks", rank(["chunks"])), ("rank-shape", rank(["shape"])), ("zero-chunk", zero(["chunks"]))]
    + of("fill", ["fill_value"], ["abc", "nan", "", "AAAAAA==", "0x7fc00000", [0], {"a": 1}, [1.0, 2.0]])
    + missing("dtype", "shape", "chunks", "compressor", "fill_value"),
    "zarr3": of("data_type", ["data_type"], ["float16", "bool", "string", "r16", "r32", "int128", "Int32", "<i4", "", "bytes", "variable_length_utf8", {"name": "numpy.datetime64", "configuration": {"unit": "s", "scale_factor": 1}}, {"name": "int32"}, None, 4])
    + [("big-endian", codecs(big)), ("transpose", lambda j, s: ins(0, transpose(s))(inner(j), s)), ("crc32c", codecs(tail(CRC))), ("gzip+crc32c", codecs(tail(GZ, CRC))),
       ("crc32c+gzip", codecs(tail(CRC, GZ))), ("gzip+gzip", codecs(tail(GZ, GZ))), ("gzip+zstd", codecs(tail(GZ, {"name": "zstd", "configuration": {"level": 1, "checksum": False}}))),
       ("lz4", codecs(tail({"name": "lz4", "configuration": {"acceleration": 1}}))), ("numcodecs", codecs(tail({"name": "numcodecs.zlib", "configuration": {"level": 1}}))),
       ("numcodecs-delta", lambda j, s: ins(0, {"name": "numcodecs.delta", "configuration": {"dtype": "<i4"}})(inner(j), s)),
       ("vlen", codecs(lambda cs, s: cs.__setitem__(0, {"name": "vlen-utf8"}))), ("packbits", codecs(lambda cs, s: cs.__setitem__(0, {"name": "packbits"}))),
       ("nested-sharding", conf(lambda k, j, s: nested(k["codecs"], s))),
       ("sharding+gzip", around(False, GZ)), ("sharding+crc32c", around(False, CRC)), ("transpose+sharding", around(True)),
       ("two-shardings", conf(lambda k, j, s: j["codecs"].append(copy.deepcopy(j["codecs"][0])))),
       ("index-start", conf(bad_key({"index_location": "start"}))), ("index-middle", conf(bad_key({"index_location": "middle"}))),
       ("index-nocrc", conf(bad_key({"index_codecs": [BY]}))), ("index-big", conf(bad_key({"index_codecs": [{"name": "bytes", "configuration": {"endian": "big"}}, CRC]}))),
       ("index-gzip", conf(bad_key({"index_codecs": [BY, GZ, CRC]}))), ("index-gzip2", conf(bad_key({"index_codecs": [BY, GZ]}))), ("index-order", conf(bad_key({"index_codecs": [CRC, BY]}))),
       ("index-empty", conf(bad_key({"index_codecs": []}))),
       ("non-dividing", conf(nondiv)), ("shard-rank", conf(lambda k, j, s: k.update(chunk_shape=list(s.chunks) + [1]))), ("shard-rank2", conf(lambda k, j, s: k.update(chunk_shape=list(s.chunks)[:-1]))),
       ("shard-zero", conf(lambda k, j, s: k.update(chunk_shape=[0] + list(s.chunks)[1:]))),
       ("no-inner-shape", conf(lambda k, j, s: k.pop("chunk_shape") and None)), ("no-inner-codecs", conf(lambda k, j, s: k.pop("codecs") and None)),
       ("transformers", put(["storage_transformers"], [{"name": "indexed", "configuration": {}}])),
       ("rank-shape", rank(["shape"])), ("rank-grid", rank(["chunk_grid", "configuration", "chunk_shape"])), ("zero-grid", zero(["chunk_grid", "configuration", "chunk_shape"]))]
    + of("grid", ["chunk_grid", "name"], ["rectangular", "rectilinear", "Regular", ""]) + of("grid2", ["chunk_grid"], [{"name": "rectangular", "configuration": {"chunk_shape": [[1, 2], [3]]}}])
    + of("key-encoding", ["chunk_key_encoding", "name"], ["v3", "suffix", "fanout", "", "Default"]) + of("fill", ["fill_value"], ["abc", "nan", "", "0x7fc00000", "0b01", [0, 0], {"a": 1}])
    + of("zarr_format", ["zarr_format"], [4, 1, 2]) + missing("data_type", "shape", "chunk_grid", "chunk_key_encoding", "fill_value", "codecs"),
    "n5": of("dataType", ["dataType"], ["string", "object", "float16", "bool", "INT32", "int128", "", "<i4", None, 3])
    + of("compression", ["compression"], [{"type": "lzma"}, {"type": "snappy"}, {"type": "blosc2"}, {"type": "GZIP"}, {"type": "jpeg"}, {"type": ""}, {"type": 3}, {"level": 5}, {}, None, 5, "gzip", {"id": "gzip", "level": 5}])
    + of("compressionType", ["compressionType"], ["lzma", "snappy", "", 3]) + [("rank-block", rank(["blockSize"])), ("rank-dims", rank(["dimensions"])), ("zero-block", zero(["blockSize"]))]
    + missing("dataType", "blockSize"),
}
BROKEN = [("truncated-json", lambda t: t[:-2]), ("empty-json", lambda t: ""), ("list-json", lambda t: "[" + t + "]"), ("text", lambda t: "not json")]


def comp_tail(drop):
    """leave out options of the compression codec"""
    def f(j, s):
        if s.comp == "raw":
            return False
        if s.fmt == "n5":
            k = j.get("compression")
            if not k:
                return False
            for n in [n for n in k if n != "type" and n != "useZlib"]:
                if drop or (len(n) + sum(s.shape)) % 2:
                    del k[n]
        elif s.fmt == "zarr2":
            k = j["compressor"]
            for n in [n for n in k if n != "id"]:
                if drop or (len(n) + sum(s.shape)) % 2:
                    del k[n]
        else:
            k = inner(j)[1]
            for n in list(k["configuration"]):
                if drop or (len(n) + sum(s.shape)) % 2:
                    del k["configuration"][n]
            if not k["configuration"] and sum(s.chunks) % 2:
                del k["configuration"]
    return f


def fill_spelling(j, s):
    v = j["fill_value"]
    if isinstance(v, str) or v is None or isinstance(v, list):
        return False
    if np.dtype(s.dtype).kind in "iu":
        j["fill_value"] = float(v)
    elif float(v) == int(v):
        j["fill_value"] = int(v)


def null_fill(j, s):
    if np.dtype(s.dtype).kind == "f" and s.fmt == "zarr2":
        s.fill = float("nan")
    else:
        s.fill = 0
    j["fill_value"] = None


def nosep(j, s):
    if s.fmt == "zarr2":
        if s.sep != ".":
            return False
        j.pop("dimension_separator", None)
    else:
        e = j["chunk_key_encoding"]
        if s.sep != {"default": "/", "v2": "."}[s.enc] or "configuration" not in e:
            return False
        if sum(s.shape) % 2:
            del e["configuration"]
        else:
            e["configuration"] = {}


EXTRA = {"foo": {"must_understand": False, "a": [1, None]}, "\u00fcnits": "nm", "_x": 1.5, "zzz": []}


def no_compression_options(j, s):
    if s.comp not in ("raw", "gzip", "bzip2", "xz", "lz4") or getattr(s, "stream", s.comp) != s.comp:
        return False
    j.pop("compression", None)
    j["compressionType"] = s.comp


def extra(j, s):
    e = dict(EXTRA)
    if s.fmt == "zarr3":        # extensions of v3 must be declared ignorable
        e = {"foo": {"must_understand": False, "a": [1, None]}, "dimension_names": ["x"] * s.ndim}
    j.update(copy.deepcopy(e))


CONTROL = {
    "zarr2": [("none", lambda j, s: None), ("no-order", put(["order"], Drop)), ("no-filters", put(["filters"], Drop)), ("empty-filters", put(["filters"], [])), ("no-separator", nosep),
              ("no-format", put(["zarr_format"], Drop)), ("no-options", comp_tail(True)), ("some-options", comp_tail(False)), ("extra", extra), ("fill", fill_spelling), ("null-fill", null_fill)],
    "zarr3": [("none", lambda j, s: None), ("no-attributes", put(["attributes"], Drop)), ("no-separator", nosep), ("no-options", comp_tail(True)), ("some-options", comp_tail(False)), ("extra", extra),
              ("fill", fill_spelling), ("null-fill", null_fill), ("no-transformers", put(["storage_transformers"], Drop)), ("empty-transformers", put(["storage_transformers"], [])),
              ("no-location", conf(lambda k, j, s: k.pop("index_location", None) and None)), ("end-location", conf(bad_key({"index_location": "end"}))),
              ("no-index-codecs", conf(lambda k, j, s: k.pop("index_codecs") and None)), ("dimension-names", lambda j, s: j.update(dimension_names=[None] * s.ndim)),
              ("one-byte-endian", lambda j, s: False if np.dtype(s.dtype).itemsize > 1 else inner(j).__setitem__(0, {"name": "bytes", "configuration": {"endian": "big"}}))],
    "n5": [("none", lambda j, s: None), ("no-options", comp_tail(True)), ("some-options", comp_tail(False)), ("extra", extra), ("old-compression", no_compression_options)],
}


def foreign(c, i):
    r = c.rnd
    fmt = core.FORMATS[i % 3]
    i //= 3
    un, co = UNSUPPORTED[fmt] + BROKEN, CONTROL[fmt]
    if i % 12 == 5:
        return versions(c, fmt, i)
    is_control = i % 4 == 3
    name, mut = co[i // 4 % len(co)] if is_control else un[(i - i // 4) % len(un)]
    sharded = None
    if "shard" in name or "index" in name or name in ("non-dividing", "no-location", "end-location", "no-inner-shape", "no-inner-codecs"):
        sharded = True
    for _ in range(50):
        s = core.rand_spec(c, fmt=fmt, dtype=r.choice(["int8", "uint8"]) if name == "one-byte-endian" else None, sharded=sharded, maxel=300, key=r.choice(["d", "a/d"]))
        s.opts = {}
        s.full_edges = s.pad_garbage = False
        if name == "null-fill":
            s.fill = 0 if fmt == "zarr3" or np.dtype(s.dtype).kind != "f" else float("nan")
        if fmt != "n5" and r.random() < .3:
            s.sep = r.choice("./")
        path = os.path.join(c.dir, "f%d%s" % (_, s.file_ext()))
        encode.root(path, fmt)
        exp, st = encode.write(c, path, s, r.choice([.5, 1]))
        if "/" in s.key and fmt != "n5":
            encode.root(os.path.join(path, s.key.rsplit("/", 1)[0]), fmt)
        mf = meta_file(os.path.join(path, s.key), fmt)
        with open(mf) as h:
            t = h.read()
        j = json.loads(t)
        if name in dict(BROKEN):
            new = mut(t)
            break
        if fmt == "n5" and name.startswith("compressionType"):
            j.pop("compression", None)
        if mut(j, s) is not False:
            new = json.dumps(j, indent=r.choice([None, 2]))
            break
    else:
        raise core.HarnessError("no document for " + name)
    with open(mf, "w") as h:
        h.write(new)
    c.sig, c.sample = core.digest(fmt, name, s.desc(), i), "%s %s %s" % (fmt, name, s.desc())
    c.note(fmt, name, new)
    c.ev(("control:" if is_control else "refuse:") + fmt)
    snap = core.snapshot(path)
    import z5py, z5vt
    if is_control:
        f = core.open_file(path, fmt, r.choice(["r", "r+", "a"]))
        d = f[s.key]
        if not isinstance(d, z5py.Dataset):
            c.fail("control:%s:%s" % (fmt, name), "opened as %r: %s" % (d, new))
        k = z5vt.open(path, s.key, "r")
        comp = NAME[fmt].get(s.comp, s.comp)
        for v in (view_py(d), view_cpp(k)):
            e = expected(s, "cpp")
            if v["comp"] not in (comp,):
                c.fail("control-comp:%s:%s" % (fmt, name), "%r for %s" % (v["comp"], new))
            for n in v:
                if n == "fill" and s.fillval() != s.fillval() and np.isnan(np.frombuffer(v[n], s.dtype)[0]):
                    continue
                if n not in ("comp", "copts") and v[n] != e[n]:
                    c.fail("control-%s:%s:%s" % (n, fmt, name), "%r, expected %r: %s" % (v[n], e[n], new))
        present = stored_options(json.loads(new), s)
        got = json.loads(k.copts) or {}
        for n, val in present.items():
            if got.get(n) != val:
                c.fail("control-option:%s:%s" % (fmt, name), "option %s is %r, stored %r: %s" % (n, got.get(n), val, new))
        full = np.full(s.shape, s.fillval(), dtype=s.dtype) if name == "null-fill" else None
        if full is not None:        # chunks that do not exist take the fill value the document now means
            for cid in st:
                g = tuple(slice(a * b, a * b + b) for a, b in zip(cid, s.chunks))
                full[g] = exp[g]
            exp = full
        a = np.full(s.shape, core.guard(s.dtype), s.dtype)
        fn("read_view", s.dtype)(k, a, [0] * s.ndim, r.choice([1, 3]))
        for x, w in ((d[:], "py"), (a, "cpp")):
            c.ev("control_reads")
            if not same(x, exp):
                c.fail("control-data:%s:%s" % (fmt, name), "%s: %s: %s" % (w, first_diff(x, exp), new))
        c.nontrivial = True
    else:
        gone = fmt == "n5" and name.startswith(("missing", "compression"))    # n5: not the metadata of a dataset, so a group
        f = core.open_file(path, fmt, "r") if r.random() < .5 else core.open_file(path, fmt, "a")
        res = []

        def opened():
            x = f[s.key]
            if gone and isinstance(x, z5py.Group):
                raise KeyError("a group")
            res.append(x)
        reqs = [("py", opened), ("cpp", lambda: res.append(z5vt.open(path, s.key, r.choice(["r", "r+", "a"]))))]
        if r.random() < .5:
            reqs.append(("require", lambda: res.append(f.require_dataset(s.key, shape=s.shape, chunks=s.chunks, dtype=s.dtype))))
        for w, q in reqs:
            c.ev("refusals")
            e = core.raises(q)
            if e is None:
                x = res[-1]
                c.fail("accepted:%s:%s" % (fmt, name), "%s opened %s with %s as %r" % (w, s.desc(), new, (x.shape, x.chunks, str(x.dtype)) if hasattr(x, "shape") else x))
            c.note(w, repr(e)[:100])
        c.nontrivial = True
    diff = core.snap_diff(snap, core.snapshot(path))
    if diff:
        c.fail("modified:%s:%s" % (fmt, name), "opening changed %s" % diff)


def versions(c, fmt, i):
    """the format version at the root of the container"""
    import z5py
    r = c.rnd
    s = core.rand_spec(c, fmt=fmt, maxel=100, key="d")
    s.opts = {}
    s.full_edges = s.pad_garbage = False
    path = os.path.join(c.dir, "v" + s.file_ext())
    encode.root(path, fmt)
    exp, _ = encode.write(c, path, s, 1)
    mf = os.path.join(path, {"n5": "attributes.json", "zarr2": ".zgroup", "zarr3": "zarr.json"}[fmt])
    with open(mf) as h:
        j = json.load(h)
    if fmt == "n5":
        good = r.random() < .4
        j["n5"] = r.choice(["1.0.0", "2.0.0", "2.5.1", "2.10.3", "3.0.0", "4.0.0", "4.99.0", "4.0.0-beta"] if good else
                           ["5.0.0", "5.1.2", "6.0.0", "9.0.0", "10.0.0", "12.3.4", "20.0.0", "41.0.0"])
    else:
        good = r.random() < .2
        if not good:
            j["zarr_format"] = r.choice([1, 4, 5, 10, 0, 23])
    new = json.dumps(j)
    with open(mf, "w") as h:
        h.write(new)
    c.sig, c.sample, c.nontrivial = core.digest("version", fmt, new, i), "%s root %s" % (fmt, new), True
    c.ev("versions")
    snap = core.snapshot(path)
    for mode in ("r", "r+", "a"):
        res = []
        e = core.raises(lambda: res.append(z5py.File(path, mode)))
        if good:
            if e is not None:
                raise e
            d = res[0]["d"][...]
            if not same(d, exp):
                c.fail("version-data:" + fmt, "%s: %s" % (c.sample, first_diff(d, exp)))
        elif e is None:
            c.fail("accepted-version:%s" % fmt, "%s was opened in mode %s" % (new, mode))
    diff = core.snap_diff(snap, core.snapshot(path))
    if diff:
        c.fail("modified-version:" + fmt, "opening changed %s" % diff)


def stored_options(j, s):
    """the codec options a document states, in z5's names"""
    if s.comp == "raw":
        return {}
    if s.fmt == "n5":
        k = j.get("compression") or {}
        names = {"blosc": {"cname": "codec", "clevel": "level", "shuffle": "shuffle", "blocksize": "blocksize", "nthreads": "nthreads"}, "bzip2": {"blockSize": "level"},
                 "xz": {"preset": "level"}, "lz4": {"blockSize": "level"}, "gzip": {"level": "level", "useZlib": "useZlib"}}.get(s.comp, {"level": "level"})
    elif s.fmt == "zarr2":
        k = j["compressor"]
        names = {"cname": "codec", "clevel": "level", "shuffle": "shuffle", "blocksize": "blocksize"} if s.comp == "blosc" else {"level": "level"}
    else:
        k = inner(j)[1].get("configuration", {})
        names = {"cname": "codec", "clevel": "level", "shuffle": "shuffle", "blocksize": "blocksize"} if s.comp == "blosc" else {"level": "level"}
    o = {names[n]: v for n, v in k.items() if n in names}
    if isinstance(o.get("shuffle"), str):
        o["shuffle"] = ["noshuffle", "shuffle", "bitshuffle"].index(o["shuffle"])
    return o
