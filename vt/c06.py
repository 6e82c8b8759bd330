"""invalid requests raise and change nothing; requests at the very border are accepted"""
import os
import numpy as np
from . import core
from .core import fn, same
from .session import Session

BIG = [2 ** 31, 2 ** 32, 2 ** 40, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2]


def case(c, i):
    if i % 3 == 2:
        return creation(c, i)
    r = c.rnd
    combos = [(f, d) for f in core.FORMATS for d in core.PYTYPES]
    f, d = combos[i % len(combos)]
    s = core.rand_spec(c, fmt=f, dtype=d, maxel=800, cpp=r.random() < .3)
    se = Session(c, s)
    c.sig, c.sample = core.digest(s.desc(), i), s.desc()
    for _ in range(r.randint(0, 3)):
        se.random_write()
    before = core.snapshot(se.path)
    kinds = [k for k in dir(Req) if not k.startswith("_")]
    q = Req(c, se)
    for _ in range(30):
        k = r.choice(kinds)
        se.threads(r.choice([1, 1, 4]))
        req = getattr(q, k)()
        if req is None:
            continue
        desc, call, arrays = req
        keep = [a.copy() for a in arrays]
        c.note(k, desc)
        c.ev("invalid_requests")
        c.ev("req_" + k)
        e = core.raises(call)
        if e is None:
            c.fail("accepted:" + k, "%s was accepted (%s)" % (desc, s.desc()))
        for a, b in zip(arrays, keep):
            if not same(a, b):
                c.fail("array-modified:" + k, "%s raised %r but changed the caller's array (%s)" % (desc, e, s.desc()))
        if r.random() < .4:
            diff = core.snap_diff(before, core.snapshot(se.path))
            if diff:
                c.fail("files-modified:" + k, "%s changed %s (%s)" % (desc, diff[:5], s.desc()))
    diff = core.snap_diff(before, core.snapshot(se.path))
    if diff:
        c.fail("files-modified", "the rejected requests changed %s (%s; %s)" % (diff[:5], s.desc(), c.log[-30:]))
    # requests that are exactly in bounds are accepted
    se.check()
    for _ in range(4):
        lo, hi = list(core.rand_roi(c, s.shape, s)[0]), list(s.shape)
        lo = [min(a, n - 1) for a, n in zip(lo, s.shape)]
        if r.random() < .5:
            se.write(lo, hi, core.rand_data(c, [b - a for a, b in zip(lo, hi)], d), r.choice(["setitem", "subarray", "cview"]))
        else:
            se.write_scalar(lo, hi, core.rand_data(c, (1,), d, "full")[0], r.choice(["py", "cpp"]))
        se.check(lo, hi)
        c.ev("border_requests")
    cid = tuple(g - 1 for g in s.grid)
    reg = core.chunk_region(s, cid)
    se.write_chunk(cid, core.rand_data(c, [x.stop - x.start for x in reg], d), r.choice(["py", "cpp"]))
    se.check()


class Req:
    """every public method makes one invalid request: (description, call, arrays that must not change)"""

    def __init__(self, c, se):
        self._c, self._se, self._s, self._r = c, se, se.s, c.rnd

    def _bad_region(self):
        """begin, shape with at least one axis outside of the dataset"""
        r, s = self._r, self._s
        lo, hi = core.rand_roi(self._c, s.shape, s)
        lo, shp = list(lo), [b - a for a, b in zip(lo, hi)]
        d = r.randrange(s.ndim)
        k = r.choice(["end", "begin", "both", "one", "one"])
        if k == "one":
            shp[d] = s.shape[d] - lo[d] + 1
        elif k == "end":
            shp[d] = s.shape[d] - lo[d] + r.choice([1, s.chunks[d], 2 * s.shape[d]])
        elif k == "begin":
            lo[d] = s.shape[d] + r.choice([0, 1, s.chunks[d]])
        else:
            lo[d] = s.shape[d] + r.randint(0, 3)
            shp[d] = r.randint(1, 4)
        return lo, shp

    def _arr(self, shp, dtype=None):
        a = np.empty(shp, dtype or self._s.dtype)
        a[...] = core.guard(dtype or self._s.dtype)
        return a

    def read_region(self):
        lo, shp = self._bad_region()
        v, base = core.strided(self._c, shp, self._s.dtype)
        nt = self._r.choice([1, 3])
        return "C++ read %s+%s" % (lo, shp), lambda: fn("read_view", self._s.dtype)(self._se.cpp, v, lo, nt), [base]

    def write_region(self):
        lo, shp = self._bad_region()
        a = self._arr(shp)
        nt = self._r.choice([1, 3])
        return "C++ write %s+%s" % (lo, shp), lambda: fn("write_view", self._s.dtype)(self._se.cpp, a, lo, nt), [a]

    def scalar_region(self):
        lo, shp = self._bad_region()
        v = core.scalar_arr(1, self._s.dtype)
        return "C++ scalar %s+%s" % (lo, shp), lambda: fn("write_scalar", self._s.dtype)(self._se.cpp, v, lo, shp, 2), []

    def wrap_read(self):
        lo, shp = self._wrap(False)
        a = self._arr(shp)
        return "C++ read %s+%s" % (lo, shp), lambda: fn("read_view", self._s.dtype)(self._se.cpp, a, lo, 1), [a]

    def wrap_write(self):
        lo, shp = self._wrap(False)
        a = self._arr(shp)
        return "C++ write %s+%s" % (lo, shp), lambda: fn("write_view", self._s.dtype)(self._se.cpp, a, lo, 1), [a]

    def wrap_scalar(self):
        lo, shp = self._wrap(True)
        v = core.scalar_arr(1, self._s.dtype)
        return "C++ scalar %s+%s" % (lo, shp), lambda: fn("write_scalar", self._s.dtype)(self._se.cpp, v, lo, shp, 1), []

    def wrap_check(self):
        lo, shp = self._wrap(True)
        return "check_request %s+%s" % (lo, shp), lambda: self._se.cpp.check_request(lo, shp), []

    def _wrap(self, bigshape):
        r, s = self._r, self._s
        lo, shp = [0] * s.ndim, list(s.shape)
        d = r.randrange(s.ndim)
        lo[d] = r.choice(BIG)
        shp[d] = r.randint(1, s.shape[d])
        if bigshape:
            if r.random() < .5:
                lo[d] = r.choice([2 ** 64 - x for x in (1, 2, s.shape[d], s.chunks[d])])
                shp[d] = (2 ** 64 - lo[d] + r.choice([0, 1, s.shape[d]])) % 2 ** 64 or 1
            elif r.random() < .5:
                lo[d], shp[d] = r.randrange(1, s.shape[d] + 1), 2 ** 64 - r.choice([1, s.shape[d], 2])
        elif r.random() < .6:
            lo[d] = 2 ** 64 - r.randint(1, shp[d])      # begin + shape wraps to a small value
        return lo, shp

    def zero_extent(self):
        r, s = self._r, self._s
        lo, hi = core.rand_roi(self._c, s.shape, s)
        lo, shp = list(lo), [b - a for a, b in zip(lo, hi)]
        shp[r.randrange(s.ndim)] = 0
        k = r.choice(["read", "write", "scalar"])
        a = self._arr(shp)
        if k == "scalar":
            return "scalar zero %s" % shp, lambda: fn("write_scalar", s.dtype)(self._se.cpp, core.scalar_arr(1, s.dtype), lo, shp, 1), []
        return "%s zero %s+%s" % (k, lo, shp), lambda: fn(k + "_view", s.dtype)(self._se.cpp, a, lo, 1), [a]

    def _bad_rank(self):
        r, s = self._r, self._s
        if s.ndim > 1 and r.random() < .5:
            n = s.ndim - 1
        else:
            n = s.ndim + r.randint(1, 2)
        return [0] * n, [1] * n

    def rank_read(self):
        lo, shp = self._bad_rank()
        a = self._arr(shp)
        return "read of rank %d" % len(lo), lambda: fn("read_view", self._s.dtype)(self._se.cpp, a, lo, 1), [a]

    def rank_write(self):
        lo, shp = self._bad_rank()
        a = self._arr(shp)
        return "write of rank %d" % len(lo), lambda: fn("write_view", self._s.dtype)(self._se.cpp, a, lo, 1), [a]

    def rank_py(self):
        lo, shp = self._bad_rank()
        a = self._arr(shp)
        if self._r.random() < .5:
            return "write_subarray of rank %d" % len(lo), lambda: self._se.ds.write_subarray(lo, a), [a]
        return "read_subarray of rank %d" % len(lo), lambda: self._se.ds.read_subarray(lo, shp), []

    def rank_check(self):
        lo, shp = self._bad_rank()
        return "check_request of rank %d" % len(lo), lambda: self._se.cpp.check_request(lo, shp), []

    def _other(self):
        return self._r.choice([d for d in core.PYTYPES if d != self._s.dtype])

    def dtype_io(self):
        d = self._other()
        k = self._r.choice(["read", "write"])
        lo, hi = core.rand_roi(self._c, self._s.shape, self._s)
        a = self._arr([y - x for x, y in zip(lo, hi)], d)
        return "%s as %s" % (k, d), lambda: fn(k + "_view", d)(self._se.cpp, a, list(lo), 1), [a]

    def dtype_scalar(self):
        d = self._other()
        s = self._s
        return "scalar as %s" % d, lambda: fn("write_scalar", d)(self._se.cpp, core.scalar_arr(1, d), [0] * s.ndim, [1] * s.ndim, 1), []

    def dtype_py(self):
        d = self._other()
        s = self._s
        lo, hi = core.rand_roi(self._c, s.shape, s)
        a = self._arr([y - x for x, y in zip(lo, hi)], d)
        return "write_subarray as %s" % d, lambda: self._se.ds.write_subarray(lo, a), [a]

    def dtype_chunk_py(self):
        d = self._other()
        cid = self._cid()
        a = self._arr(self._payload(cid), d)
        return "write_chunk as %s" % d, lambda: self._se.ds.write_chunk(cid, a), [a]

    def _cid(self):
        return [self._r.randrange(g) for g in self._s.grid]

    def _payload(self, cid):
        s = self._s
        return s.chunks if s.zarr else [x.stop - x.start for x in core.chunk_region(s, cid)]

    def _bad_cid(self):
        cid = self._cid()
        d = self._r.randrange(self._s.ndim)
        cid[d] = self._s.grid[d] + self._r.choice([0, 1, 5, 2 ** 31, 2 ** 32])
        return cid

    def chunk_index_write(self):
        cid = self._bad_cid()
        a = self._arr(self._s.chunks)
        if self._r.random() < .5:
            return "write_chunk %s" % cid, lambda: self._se.ds.write_chunk(cid, a), [a]
        return "C++ write_chunk %s" % cid, lambda: fn("write_chunk", self._s.dtype)(self._se.cpp, a, cid), [a]

    def chunk_index_read(self):
        cid = self._bad_cid()
        a = self._arr(self._s.chunks)
        return "C++ read_chunk %s" % cid, lambda: fn("read_chunk", self._s.dtype)(self._se.cpp, a, cid), [a]

    def chunk_rank(self):
        r, s = self._r, self._s
        cid = self._cid()
        cid = cid[:-1] if s.ndim > 1 and r.random() < .5 else cid + [0]
        a = self._arr(s.chunks)
        k = r.choice(["w", "w", "r", "p"])
        if k == "w":
            return "C++ write_chunk %s" % cid, lambda: fn("write_chunk", s.dtype)(self._se.cpp, a, cid), [a]
        if k == "r":
            return "C++ read_chunk %s" % cid, lambda: fn("read_chunk", s.dtype)(self._se.cpp, a, cid), [a]
        return "write_chunk %s" % cid, lambda: self._se.ds.write_chunk(cid, a), [a]

    def chunk_size(self):
        """array that does not have the size of the chunk"""
        r, s = self._r, self._s
        cid = self._cid()
        shp = list(self._payload(cid))
        d = r.randrange(s.ndim)
        shp[d] = max(1, shp[d] + r.choice([-1, 1, 3]))
        k = r.random()
        if k < .25:         # the other form of a chunk at the border, of either rank
            g = core.chunk_region(s, cid)
            shp = [x.stop - x.start for x in g] if s.zarr else list(s.chunks)
        elif k < .35:
            shp = [int(np.prod(shp))]
        if int(np.prod(shp)) == int(np.prod(self._payload(cid))):
            return None
        a = self._arr(shp)
        return "write_chunk %s with array of shape %s" % (cid, shp), lambda: self._se.ds.write_chunk(cid, a), [a]

    def varlen_zarr(self):
        if not self._s.zarr:
            return None
        cid = self._cid()
        a = self._arr([3])
        return "varlen in zarr", lambda: self._se.ds.write_chunk(cid, a, True), [a]

    def negative_py(self):
        r, s = self._r, self._s
        lo = [0] * s.ndim
        d = r.randrange(s.ndim)
        lo[d] = -r.randint(1, 3)
        if r.random() < .5:
            a = self._arr([1] * s.ndim)
            return "write_subarray at %s" % lo, lambda: self._se.ds.write_subarray(lo, a), [a]
        return "read_subarray at %s" % lo, lambda: self._se.ds.read_subarray(lo, [x + 1 for x in lo]), []

    def region_py(self):
        lo, shp = self._bad_region()
        hi = [a + b for a, b in zip(lo, shp)]
        k = self._r.choice(["ws", "rs", "rd", "wd"])
        a = self._arr(shp)
        if k == "ws":
            return "write_subarray %s+%s" % (lo, shp), lambda: self._se.ds.write_subarray(lo, a), [a]
        if k == "rs":
            return "read_subarray %s:%s" % (lo, hi), lambda: self._se.ds.read_subarray(lo, hi), []
        if k == "rd":
            return "read_direct %s:%s" % (lo, hi), lambda: self._se.ds.read_direct(a, core.sl(lo, hi)), [a]
        return "write_direct %s:%s" % (lo, hi), lambda: self._se.ds.write_direct(a, None, core.sl(lo, hi)), [a]

    def shape_py(self):
        """assigned array does not match the region"""
        s, r = self._s, self._r
        lo, hi = core.rand_roi(self._c, s.shape, s)
        shp = [b - a for a, b in zip(lo, hi)]
        d = r.randrange(s.ndim)
        bad = list(shp)
        k = r.randrange(5)
        if k == 1:          # the selections of write_direct have different sizes
            bad[d] = r.choice([n for n in (bad[d] - 1, bad[d] + 1, bad[d] + 3, 1) if 0 < n != bad[d]])
            a = self._arr(bad)
            return "write_direct %s:%s = array%s" % (lo, hi, bad), lambda: self._se.ds.write_direct(a, None, core.sl(lo, hi)), [a]
        if k == 2:          # the selection in the array has a different size
            big = [n + 2 for n in bad]
            a = self._arr(big)
            bad[d] += r.choice([1, 2])
            return "write_direct %s:%s = array[%s]" % (lo, hi, bad), \
                lambda: self._se.ds.write_direct(a, core.sl([0] * s.ndim, bad), core.sl(lo, hi)), [a]
        if k == 3:          # steps
            a = self._arr(shp)
            sel = list(core.sl(lo, hi))
            sel[d] = slice(lo[d], hi[d], r.choice([2, 3, -1]))
            if r.random() < .5:
                return "read_direct %s" % sel, lambda: self._se.ds.read_direct(a, tuple(sel)), [a]
            return "write_direct %s" % sel, lambda: self._se.ds.write_direct(a, None, tuple(sel)), [a]
        bad[d] += r.choice([1, 2])
        a = self._arr(bad)
        if k == 4 and shp[d] > 1:
            return "read_direct %s:%s into array%s" % (lo, hi, bad), lambda: self._se.ds.read_direct(a, core.sl(lo, hi)), [a]
        return "setitem %s:%s = array%s" % (lo, hi, bad), lambda: self._se.ds.__setitem__(core.sl(lo, hi), a), [a]


# ---------------------------------------------------------------------------------------------

def creation(c, i):
    """invalid specifications"""
    import z5vt
    r = c.rnd
    f = core.FORMATS[i // 3 % 3]
    s0 = core.rand_spec(c, fmt=f)
    path = os.path.join(c.dir, "f" + s0.file_ext())
    fl = core.open_file(path, s0)
    core.create_py(fl, s0)
    fl["d"].attrs["x"] = 1
    fl.create_group("g")
    before = core.snapshot(path)
    c.sig, c.sample = core.digest("create", s0.desc(), i), "creation " + s0.desc()
    n = 0
    while n < 25:
        s = core.rand_spec(c, fmt=f, key="new")
        if f == "zarr2":
            s.sep = s0.sep
        kind = r.choice(["rank", "zerochunk", "zeroshape", "dtype", "comp", "shardrank", "sharddiv", "shardzero", "shardfmt", "exists", "foreigncomp",
                         "enc", "data", "negchunk", "sep"])
        kw = dict(s.opts)
        shape, chunks, dtype, comp, shards, enc, key = list(s.shape), list(s.chunks), s.dtype, s.comp, list(s.shards), s.enc, "new"
        via = r.choice(["py", "cpp"])
        d = r.randrange(s.ndim)
        extra = {}
        if kind == "rank":
            chunks = chunks[:-1] if len(chunks) > 1 and r.random() < .5 else chunks + [1]
        elif kind == "zerochunk":
            chunks[d] = 0
        elif kind == "zeroshape":
            # an empty axis leaves no valid chunk shape in z5py (chunks are clipped to the shape); C++ needs a zero chunk too
            if via == "cpp":
                continue
            shape[d] = 0
        elif kind == "negchunk":
            chunks[d] = -1
            via = "py" if r.random() < .7 else "cpp"
        elif kind == "dtype":
            dtype = r.choice(["float16", "bool", "S3", "complex64", "object", "U2", "datetime64[s]"]) if via == "py" else r.choice(["foo", "float16", "", "<i4"])
        elif kind == "comp":
            comp = r.choice(["foo", "", "lzma", "GZIP", "szip"])
            kw = {}
        elif kind == "foreigncomp":
            bad = [x for x in ("lz4", "xz", "bzip2", "zlib", "blosc", "gzip", "zstd") if x not in core.COMP[f] and not (f == "n5" and x == "zlib")]
            if f == "n5":
                if via == "cpp":
                    continue
                bad = ["zlib"]
            if f == "zarr2" and via == "cpp":
                bad = ["xz"]        # lz4 in zarr v2 is an extension of the C++ interface (not offered by z5py)
            if f == "zarr3" and via == "cpp":
                bad = ["lz4", "xz", "bzip2"]     # zlib is the C++ name of gzip
            comp = r.choice(bad)
            kw = {}
        elif kind in ("shardrank", "sharddiv", "shardzero"):
            if f != "zarr3":
                continue
            shards = [2 * x for x in chunks]
            if kind == "shardrank":
                shards = shards + [1] if len(shards) == 1 or r.random() < .5 else shards[:-1]
            elif kind == "shardzero":
                shards[d] = 0
            else:
                if via == "py":
                    chunks = [min(a, b) for a, b in zip(chunks, shape)]
                if chunks[d] == 1:
                    continue
                shards[d] = r.choice([chunks[d] * 2 + 1, chunks[d] - 1, chunks[d] + 1])
                if shards[d] % chunks[d] == 0:
                    continue
        elif kind == "shardfmt":
            if f == "zarr3":
                continue
            shards = [2 * x for x in chunks]
        elif kind == "exists":
            key = r.choice(["d", "g"])
        elif kind == "enc":
            if f != "zarr3":
                continue
            enc = r.choice(["foo", "v3", "Default"])
        elif kind == "sep":
            continue
        elif kind == "data":
            via = "py"
            k2 = r.choice(["shape", "dtype"])
            data = core.rand_data(c, shape, s.dtype)
            if k2 == "shape":
                extra = {"data": data}
                shape = list(shape)
                shape[d] += 1
            else:
                extra = {"data": data}
                dtype = r.choice([x for x in core.PYTYPES if x != s.dtype])
        n += 1
        c.note(kind, via, shape, chunks, dtype, comp, shards)
        if via == "py":
            if f != "n5":
                kw["fillvalue"] = 0
            if f == "zarr3":
                kw["chunk_key_encoding"] = enc
            if shards:
                kw["shards"] = tuple(shards)
            kw.update(extra)
            call = lambda: fl.create_dataset(key, shape=tuple(shape), chunks=tuple(chunks), dtype=dtype, compression=comp, **kw)
        else:
            o = {"level": 4} if kind in ("comp", "foreigncomp") else None
            s.comp = comp
            if kind in ("comp", "foreigncomp"):
                s.opts = o
            call = lambda: z5vt.create(path, key, dtype, shape, chunks, comp, core.cpp_opts(s), 0.0, s.sep, 3 if f == "zarr3" else 2, enc, shards)
        c.ev("invalid_creations")
        c.ev("create_" + kind)
        e = core.raises(call)
        if e is None:
            c.fail("create-accepted:" + kind, "%s via %s: shape %s chunks %s shards %s dtype %s comp %s enc %s was accepted" % (f, via, shape, chunks, shards, dtype, comp, enc))
        diff = core.snap_diff(before, core.snapshot(path))
        if diff:
            c.fail("create-side-effect:" + kind, "%s via %s raised %r but changed %s (chunks %s shards %s dtype %s comp %s)" % (f, via, e, diff[:5], chunks, shards, dtype, comp))
    # a valid specification is accepted under the same name afterwards
    s = core.rand_spec(c, fmt=f, key="new")
    if f == "zarr2":
        s.sep = s0.sep
    core.create_py(fl, s)
    if not same(fl["new"][:], np.full(s.shape, s.fillval(), s.dtype)):
        c.fail("after-rejections", s.desc())
