"""Shared pieces of the checks: verdict types, case context, the generators and the reference model."""
import contextlib, ctypes, hashlib, json, os, random, shutil, sys, tempfile, zlib
import numpy as np


class Violation(Exception):
    """the oracle refuted the property; key identifies the failing input / call site"""

    def __init__(self, key, msg):
        super().__init__("%s: %s" % (key, msg))
        self.key, self.msg = key, msg


class HarnessError(Exception):
    pass


def scratch_base():
    d = "/dev/shm"
    try:
        st = os.statvfs(d)
        if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (1 << 30):
            return d
    except OSError:
        pass
    return tempfile.gettempdir()


class Ctx:
    """one case: random streams seeded by (seed, property, index), a private scratch directory and counters"""

    def __init__(self, prop, tier, seed, index, scratch):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        k = [seed & 0xffffffff, zlib.crc32(prop.encode()), index]
        self.np = np.random.default_rng(k)
        self.rnd = random.Random("%d|%s|%d" % (seed, prop, index))
        self.dir = os.path.join(scratch, "c%d" % index)
        self.events = {}
        self.sig = None
        self.nontrivial = True
        self.sample = None
        self.log = []

    def __enter__(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, *a):
        if len(self.log) < 400:
            self.log.append(" ".join(str(x) for x in a))

    def fail(self, key, msg):
        raise Violation(key, msg)


# ---------------------------------------------------------------------------------------------
# values

DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
          "complex64", "complex128"]
PYTYPES = [d for d in DTYPES if not d.startswith("complex")]   # what z5py can create

COMP = {"n5": ["raw", "gzip", "bzip2", "xz", "lz4", "blosc", "zstd"],
        "zarr2": ["raw", "blosc", "zlib", "bzip2", "gzip", "zstd"],
        "zarr3": ["raw", "blosc", "gzip", "zstd"]}
FORMATS = ["n5", "zarr2", "zarr3"]


def same(a, b):
    """element-wise equality with NaN == NaN (and -0.0 == 0.0, see DESIGN)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def first_diff(got, exp):
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape != exp.shape or got.dtype != exp.dtype:
        return "got %s%s, expected %s%s" % (got.dtype, got.shape, exp.dtype, exp.shape)
    ne = got != exp
    if got.dtype.kind in "fc":
        ne &= ~(np.isnan(got) & np.isnan(exp))
    w = np.argwhere(ne)
    if not len(w):
        return "equal"
    p = tuple(int(x) for x in w[0])
    return "%d of %d elements differ, first at %s: got %r, expected %r" % (len(w), got.size, p, got[p], exp[p])


def rand_data(c, shape, dtype, kind=None):
    """data with enough entropy that a misplaced element is visible"""
    dt = np.dtype(dtype)
    r = c.np
    kind = kind or c.rnd.choice(["full", "full", "full", "small", "ramp", "sparse", "const", "special"])
    n = int(np.prod(shape)) if len(shape) else 1

    def full():
        if dt.kind in "iu":
            ii = np.iinfo(dt)
            return r.integers(ii.min, ii.max, size=n, dtype=dt, endpoint=True)
        if dt.kind == "f":
            return (r.standard_normal(n) * 10.0 ** r.integers(-5, 6)).astype(dt)
        return (r.standard_normal(n) + 1j * r.standard_normal(n)).astype(dt)
    if kind == "full":
        a = full()
    elif kind == "small":
        a = r.integers(0, 4, size=n).astype(dt)
    elif kind == "ramp":
        a = (np.arange(n) + int(r.integers(1, 100))).astype(np.uint64).astype(dt)
    elif kind == "sparse":
        a = full()
        a[r.random(n) < 0.9] = 0
    elif kind == "const":
        a = np.full(n, full()[:1][0] if n else 0, dtype=dt)
    else:
        a = full()
        if dt.kind == "f":
            sp = np.array([np.nan, np.inf, -np.inf, 0.0, np.finfo(dt).max, np.finfo(dt).tiny], dt)
        elif dt.kind == "c":
            sp = np.array([complex(np.nan, 1), complex(np.inf, 0), 0, 1j], dt)
        else:
            ii = np.iinfo(dt)
            sp = np.array([ii.min, ii.max, 0, 1], dt)
        m = r.random(n) < 0.4
        a[m] = sp[r.integers(0, len(sp), size=int(m.sum()))]
    return np.ascontiguousarray(a.reshape(shape))


def array_form(c, data, swapped=False):
    """the same values in another memory layout"""
    r = c.rnd
    k = r.choice(["plain", "plain", "plain", "fortran", "reversed", "strided", "readonly", "view"] + (["swapped"] if swapped else []))
    if k == "fortran":
        return np.asfortranarray(data), k
    if k == "reversed":
        t = tuple(slice(None, None, -1) for _ in data.shape)
        return np.ascontiguousarray(data[t])[t], k
    if k == "strided":
        big = np.zeros(tuple(2 * n + 1 for n in data.shape), data.dtype)
        v = big[tuple(slice(1, 2 * n, 2) for n in data.shape)]
        v[...] = data
        return v, k
    if k == "view":
        big = np.zeros(tuple(n + 2 for n in data.shape), data.dtype)
        v = big[tuple(slice(1, n + 1) for n in data.shape)]
        v[...] = data
        return v, k
    if k == "readonly":
        a = data.copy()
        a.setflags(write=False)
        return a, k
    if k == "swapped":
        return data.astype(data.dtype.newbyteorder("S")), k
    return data, "plain"


# ---------------------------------------------------------------------------------------------
# dataset specifications

class Spec:
    """what a dataset is created with; fill is a python number"""

    def __init__(self, **k):
        self.fmt = self.dtype = self.shape = self.chunks = None
        self.shards = ()
        self.comp, self.opts, self.fill, self.sep, self.enc = "raw", {}, 0, ".", "default"
        self.key = "d"
        self.__dict__.update(k)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def grid(self):
        return tuple(-(-s // c) for s, c in zip(self.shape, self.chunks))

    @property
    def zarr(self):
        return self.fmt != "n5"

    def desc(self):
        d = dict(self.__dict__)
        d["fill"] = repr(self.fill)
        return json.dumps(d, sort_keys=True, default=list)

    def fillval(self):
        with np.errstate(all="ignore"):
            return np.array([0 if self.fmt == "n5" else self.fill]).astype(self.dtype)[0]

    def file_ext(self):
        return ".n5" if self.fmt == "n5" else ".zarr"


def rand_fill(c, dtype, fmt):
    if fmt == "n5":
        return 0
    k = np.dtype(dtype).kind
    if c.rnd.random() < 0.3:
        return 0
    if k in "iu":
        ii = np.iinfo(dtype)
        lo, hi = max(ii.min, -(2 ** 53)), min(ii.max, 2 ** 53)
        return c.rnd.choice([0, 1, 5, 42, hi, lo, hi - 1, c.rnd.randint(lo, hi)])
    if k == "f":
        return c.rnd.choice([0.0, 1.0, -1.5, 0.1, 1e-30, 3e30, float("nan"), float("inf"), float("-inf"), 255.0])
    return c.rnd.choice([0.0, 1.0, -2.5])


def rand_opts(c, fmt, comp):
    """compression options in the spelling z5py's create_dataset takes"""
    r = c.rnd
    if r.random() < 0.35:
        return {}
    if comp == "blosc":
        o = {}
        if r.random() < 0.8:
            o["codec"] = r.choice(["lz4", "lz4hc", "blosclz", "zlib", "zstd"])
        if r.random() < 0.8:
            o["shuffle"] = r.choice([0, 1, 2])
        if r.random() < 0.6:
            o["level" if fmt == "zarr3" else "clevel"] = r.randint(1, 9)
        if r.random() < 0.3:
            o["blocksize"] = r.choice([0, 16, 64, 256, 4096])
        return o
    if comp in ("gzip", "zlib"):
        return {"level": r.randint(1, 9)}
    if comp == "bzip2":
        return {"level": r.randint(1, 9)}
    if comp == "xz":
        return {"level": r.randint(0, 6)}
    if comp == "lz4":
        return {"level": r.randint(1, 9)}
    if comp == "zstd":
        return {"level": r.choice([-1, 1, 3, 5, 9, 12])}
    return {}


def rand_shape(c, ndim, maxel=3000):
    r = c.rnd
    while True:
        top = {1: 200, 2: 50, 3: 18, 4: 9, 5: 6}.get(ndim, 4 if ndim < 7 else 3)
        sh = tuple(r.choice([1, 2, r.randint(1, top), r.randint(1, top), r.randint(2, top)]) for _ in range(ndim))
        if np.prod(sh) <= maxel:
            return sh


def rand_spec(c, fmt=None, dtype=None, ndim=None, sharded=None, comp=None, fill=True, cpp=False, maxel=3000, key="d", minchunks=1):
    r = c.rnd
    fmt = fmt or r.choice(FORMATS)
    dtype = dtype or r.choice(DTYPES if cpp and fmt == "zarr2" else PYTYPES)
    ndim = ndim or (r.choice([6, 6, 7, 8]) if r.random() < .04 else r.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 5]))
    for _ in range(200):
        shape = rand_shape(c, ndim, maxel)
        chunks = []
        for s in shape:
            k = r.random()
            if k < 0.15:
                ch = s
            elif k < 0.3:
                ch = 1 if s <= 8 else max(1, s // 4)
            elif k < 0.36 and cpp:
                ch = s + r.randint(1, 3)          # chunk larger than the axis (C++ API only)
            else:
                ch = r.randint(max(1, s // 6), max(1, (2 * s) // 3))
            chunks.append(ch)
        n = int(np.prod([-(-s // ch) for s, ch in zip(shape, chunks)]))
        if minchunks <= n <= 160:
            break
    chunks = tuple(chunks)
    shards = ()
    if fmt == "zarr3" and (sharded if sharded is not None else r.random() < 0.5):
        shards = tuple(ch * r.choice([1, 2, 2, 3, r.randint(1, 4)]) for ch in chunks)
    comp = comp or r.choice(COMP[fmt])
    s = Spec(fmt=fmt, dtype=dtype, shape=shape, chunks=chunks, shards=shards, comp=comp,
             opts=rand_opts(c, fmt, comp), fill=rand_fill(c, dtype, fmt) if fill else 0, key=key)
    if fmt == "zarr2":
        s.sep = r.choice([".", "/"])
    if fmt == "zarr3":
        s.enc = r.choice(["default", "default", "v2"])
        s.sep = "/" if s.enc == "default" else "."
    return s


def large_spec(c, **k):
    """chunks of tens of kilobytes to megabytes: internal buffers and block sizes of codecs, streams and copies are exceeded"""
    r = c.rnd
    s = rand_spec(c, maxel=300, **k)
    nd = r.choice([1, 2, 2, 3])
    item = np.dtype(s.dtype).itemsize
    target = r.choice([40000, 66000, 131072, 140000, 300000, 1100000, 2100000]) // item     # elements of one chunk
    chunks, left = [], max(2, target)
    for d in range(nd - 1):
        n = max(1, int(left ** (1 / (nd - d)) * r.choice([.3, .7, 1, 1.4])))
        chunks.append(n)
        left = max(1, left // n)
    chunks.append(max(1, left))
    if r.random() < .3:
        chunks = [max(1, 1 << (n.bit_length() - 1)) for n in chunks]
    if r.random() < .5:
        chunks = chunks[::-1]
    budget, shape = 9000000 // item, []
    for n in chunks:
        g = r.choice([1, 2, 3])
        while g > 1 and np.prod(shape + [1]) * n * g * np.prod(chunks[len(shape) + 1:] + [1]) > budget:
            g -= 1
        shape.append(max(n, n * g - r.choice([0, 0, 1, n // 3])))
    s.shape, s.chunks = tuple(shape), tuple(chunks)
    if s.shards:
        s.shards = tuple(n * r.choice([1, 2]) for n in chunks)
    return s


def open_file(path, spec_or_fmt, mode="a"):
    import z5py
    fmt = spec_or_fmt if isinstance(spec_or_fmt, str) else spec_or_fmt.fmt
    sep = spec_or_fmt.sep if (not isinstance(spec_or_fmt, str) and fmt == "zarr2") else "."
    return z5py.File(path, mode=mode, use_zarr_format=(fmt != "n5"), zarr_format=3 if fmt == "zarr3" else 2,
                     dimension_separator=sep)


def create_py(f, s, n_threads=1):
    kw = dict(s.opts)
    if s.zarr:
        kw["fillvalue"] = s.fill
    if s.fmt == "zarr3":
        kw["chunk_key_encoding"] = s.enc
        if s.shards:
            kw["shards"] = s.shards
    return f.create_dataset(s.key, shape=s.shape, chunks=s.chunks, dtype=s.dtype, compression=s.comp,
                            n_threads=n_threads, **kw)


def cpp_opts(s):
    """the C++ API's spelling of the compression options"""
    o = dict(s.opts)
    if "clevel" in o:
        o["level"] = o.pop("clevel")
    if s.comp in ("gzip", "zlib"):
        o["useZlib"] = s.comp == "zlib"
        # only zarr v2 has zlib streams: the option must not matter in the other formats
        k = (sum(s.shape) + sum(s.chunks)) % 3
        if s.fmt != "zarr2" and k < 2:
            o.pop("useZlib")
            if k == 1:
                o["useZlib"] = True
    return json.dumps(o)


def create_cpp(path, s):
    import z5vt
    if s.dtype not in PYTYPES:
        # complex data: only readable/writable in existing zarr v2 arrays (the factories do not create it)
        os.makedirs(os.path.join(path, s.key))
        cid = "gzip" if s.comp == "gzip" else s.comp
        comp = None
        o = json.loads(cpp_opts(s))
        lev = o.get("level", 5)
        if s.comp == "blosc":
            comp = {"id": "blosc", "cname": o.get("codec", "lz4"), "clevel": lev, "shuffle": o.get("shuffle", 1),
                    "blocksize": o.get("blocksize", 0)}
        elif s.comp == "bzip2":
            comp = {"id": "bz2", "level": lev}
        elif s.comp != "raw":
            comp = {"id": cid, "level": lev}
        with open(os.path.join(path, s.key, ".zarray"), "w") as f:
            json.dump({"zarr_format": 2, "shape": s.shape, "chunks": s.chunks, "order": "C", "filters": None,
                       "dtype": {"complex64": "<c8", "complex128": "<c16"}[s.dtype], "compressor": comp,
                       "fill_value": s.fill, "dimension_separator": s.sep}, f)
        return z5vt.open(path, s.key)
    return z5vt.create(path, s.key, s.dtype, list(s.shape), list(s.chunks), s.comp, cpp_opts(s), float(s.fill), s.sep,
                       3 if s.fmt == "zarr3" else 2, s.enc, list(s.shards))


def fn(name, dtype):
    import z5vt
    return getattr(z5vt, "%s_%s" % (name, dtype))


def scalar_arr(v, dtype):
    return np.array([v], dtype=dtype)


def rand_roi(c, shape, spec=None):
    """a region; biased to chunk/shard borders so that aligned, off-by-one and crossing regions all occur"""
    r = c.rnd
    lo, hi = [], []
    for d, s in enumerate(shape):
        cand = {0, s}
        if spec is not None:
            ch = spec.chunks[d]
            for k in range(0, s + ch, ch):
                cand.update((k - 1, k, k + 1))
            if spec.shards:
                sh = spec.shards[d]
                for k in range(0, s + sh, sh):
                    cand.update((k - 1, k, k + 1))
        cand = sorted(x for x in cand if 0 <= x <= s)
        for _ in range(50):
            a = r.choice(cand) if r.random() < 0.7 else r.randint(0, s)
            b = r.choice(cand) if r.random() < 0.7 else r.randint(0, s)
            if a != b:
                break
        else:
            a, b = 0, s
        lo.append(min(a, b))
        hi.append(max(a, b))
    return tuple(lo), tuple(hi)


def sl(lo, hi):
    return tuple(slice(a, b) for a, b in zip(lo, hi))


def all_chunks(spec):
    return [tuple(int(x) for x in i) for i in np.ndindex(*spec.grid)]


def chunk_region(spec, cid):
    return tuple(slice(i * ch, min((i + 1) * ch, s)) for i, ch, s in zip(cid, spec.chunks, spec.shape))


def strided(c, arr_or_shape, dtype):
    """an ndarray view of the given shape with random memory layout (C, F, transposed axes, gaps, offset)
    inside a larger guard-filled buffer. -> (view, base)"""
    r = c.rnd
    shape = tuple(arr_or_shape)
    nd = len(shape)
    order = list(range(nd))
    if r.random() < 0.6:
        r.shuffle(order)
    step = [r.choice([1, 1, 1, 2, 3]) for _ in range(nd)]
    pad = [(r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2])) for _ in range(nd)]
    big = [0] * nd
    for d in range(nd):
        big[d] = pad[d][0] + (shape[d] - 1) * step[d] + 1 + pad[d][1]
    base = np.empty([big[d] for d in order], dtype=dtype)
    base[...] = guard(dtype)
    inv = [order.index(d) for d in range(nd)]
    v = base.transpose(inv)
    idx = tuple(slice(pad[d][0], pad[d][0] + (shape[d] - 1) * step[d] + 1, step[d]) for d in range(nd))
    v = v[idx]
    assert v.shape == shape
    return v, base


def guard(dtype):
    k = np.dtype(dtype).kind
    return {"i": 77, "u": 201, "f": 12345.678, "c": 9 + 8j}[k]


def snapshot(root):
    """every path below root -> bytes (directories: None)"""
    out = {}
    for r, ds, fs in os.walk(root):
        for d in ds:
            out[os.path.relpath(os.path.join(r, d), root) + "/"] = None
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def snap_diff(a, b):
    d = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            d.append("+" + k)
        elif k not in b:
            d.append("-" + k)
        elif a[k] != b[k]:
            d.append("~" + k)
    return d


def raises(f, *types):
    """-> the exception f raised (any Exception), or None"""
    try:
        f()
    except Exception as e:
        return e
    return None


def digest(*a):
    return hashlib.sha1("|".join(str(x) for x in a).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------
# fault shim

class Shim:
    OPENR, OPENW, READ, WRITE, CLOSEW, MKDIR, UNLINK, RMDIR, RENAME, TRUNC, STAT, OPENDIR = range(12)
    COUNT, FAIL, CRASH, CRASH_HALF, SHORT, STICKY = range(6)
    MUT = (1 << OPENW) | (1 << WRITE) | (1 << CLOSEW) | (1 << MKDIR) | (1 << UNLINK) | (1 << RMDIR) | (1 << RENAME) | (1 << TRUNC)
    RD = (1 << OPENR) | (1 << READ)

    def __init__(self):
        self.l = ctypes.CDLL(None)
        try:
            self.l.vt_arm
        except AttributeError:
            raise HarnessError("fault shim is not preloaded")
        self.l.vt_counter.restype = ctypes.c_long
        self.l.vt_hits.restype = ctypes.c_long
        self.l.vt_count.restype = ctypes.c_long
        self.l.vt_last.restype = ctypes.c_char_p

    def arm(self, root, mode, mask, n=0, err=28, delay=0):
        self.l.vt_arm(root.encode(), mode, ctypes.c_uint(mask), ctypes.c_long(n), err, delay)

    def disarm(self):
        self.l.vt_disarm()

    @property
    def counter(self):
        return self.l.vt_counter()

    @property
    def hits(self):
        return self.l.vt_hits()

    @property
    def last(self):
        return self.l.vt_last().decode()
