"""A dataset driven through both public interfaces next to a numpy reference array."""
import os
import numpy as np
from . import core
from .core import Violation, same, first_diff, sl, fn


class Session:
    def __init__(self, c, spec, via=None, n_threads=1, name="c"):
        import z5py, z5vt
        self.c, self.s = c, spec
        self.path = os.path.join(c.dir, name + spec.file_ext())
        if c.rnd.random() < .1:     # relative paths
            self.path = os.path.relpath(self.path)
        self.nt = n_threads
        self.f = core.open_file(self.path, spec)
        py_ok = spec.dtype in core.PYTYPES and all(ch <= sh for ch, sh in zip(spec.chunks, spec.shape))
        self.pyio = spec.dtype in core.PYTYPES    # z5py has no complex dtype
        self.via = via or (c.rnd.choice(["py", "cpp"]) if py_ok else "cpp")
        c.note("spec", spec.desc(), "via", self.via)
        if self.via == "py":
            core.create_py(self.f, spec, n_threads)
        else:
            core.create_cpp(self.path, spec)
        self.model = np.full(spec.shape, spec.fillval(), dtype=spec.dtype)
        self.written = np.zeros(spec.grid, bool)     # chunks that were the target of some write
        self.reopen()

    # -- handles
    def reopen(self):
        import z5vt
        self.f = core.open_file(self.path, self.s)
        self.ds = None
        if self.pyio:
            self.ds = self.f[self.s.key]
            self.ds.n_threads = self.nt
        self.cpp = z5vt.open(self.path, self.s.key)

    def threads(self, n):
        self.nt = n
        if self.ds is not None:
            self.ds.n_threads = n

    @property
    def dspath(self):
        return os.path.join(self.path, self.s.key)

    # -- writes
    def _mark(self, lo, hi):
        g = tuple(slice(a // ch, -(-b // ch)) for a, b, ch in zip(lo, hi, self.s.chunks))
        self.written[g] = True

    def write(self, lo, hi, data, how):
        c, s = self.c, self.s
        c.note("write", how, lo, hi, "nt", self.nt)
        if how in ("setitem", "subarray", "direct"):
            arr, form = core.array_form(c, data, how == "setitem")
            keep = arr.copy()
            if how == "setitem":
                self.ds[sl(lo, hi)] = arr
            elif how == "subarray":
                self.ds.write_subarray(lo, arr)
            else:
                self.ds.write_direct(arr, tuple(slice(0, n) for n in data.shape), sl(lo, hi))
            if not same(arr, keep):
                c.fail("write-modified-input", "the array (%s) passed to a write was modified" % form)
            c.ev("form_" + form)
        elif how == "cview":
            v, base = core.strided(c, data.shape, s.dtype)
            v[...] = data
            keep = base.copy()
            fn("write_view", s.dtype)(self.cpp, v, list(lo), self.nt)
            if not same(base, keep):
                c.fail("write-modified-input", "the array passed to a write was modified")
        else:
            raise ValueError(how)
        self.model[sl(lo, hi)] = data
        self._mark(lo, hi)
        c.ev("writes")
        c.ev("elements_written", int(data.size))

    def write_scalar(self, lo, hi, val, how):
        c, s = self.c, self.s
        c.note("scalar", how, lo, hi, val, "nt", self.nt)
        if how == "py":
            self.ds[sl(lo, hi)] = val.item()
        else:
            fn("write_scalar", s.dtype)(self.cpp, core.scalar_arr(val, s.dtype), list(lo),
                                        [b - a for a, b in zip(lo, hi)], self.nt)
        self.model[sl(lo, hi)] = val
        self._mark(lo, hi)
        c.ev("scalar_writes")

    def chunk_payload(self, cid, data):
        """the array the chunk interface stores for in-bounds data of this chunk"""
        s = self.s
        if s.zarr:
            full = np.full(s.chunks, s.fillval(), dtype=s.dtype)
            full[tuple(slice(0, n) for n in data.shape)] = data
            return full
        return np.ascontiguousarray(data)

    def write_chunk(self, cid, data, how):
        c, s = self.c, self.s
        c.note("chunk", how, cid)
        pay = self.chunk_payload(cid, data)
        if how == "py":
            self.ds.write_chunk(list(cid), pay)
        else:
            fn("write_chunk", s.dtype)(self.cpp, pay, list(cid))
        r = core.chunk_region(s, cid)
        self.model[r] = data
        self.written[cid] = True
        c.ev("chunk_writes")

    def random_write(self):
        c, s, r = self.c, self.s, self.c.rnd
        k = r.random()
        if k < 0.12:
            cid = tuple(r.randrange(g) for g in s.grid)
            reg = core.chunk_region(s, cid)
            data = core.rand_data(c, [x.stop - x.start for x in reg], s.dtype)
            self.write_chunk(cid, data, r.choice(["py", "cpp"]) if self.pyio else "cpp")
            return
        lo, hi = core.rand_roi(c, s.shape, s)
        shp = [b - a for a, b in zip(lo, hi)]
        if k < 0.3:
            val = core.rand_data(c, (1,), s.dtype, "full")[0] if r.random() < 0.7 else s.fillval()
            how = r.choice(["py", "cpp"])
            if how == "py" and s.dtype not in core.PYTYPES:
                how = "cpp"
            self.write_scalar(lo, hi, val, how)
            return
        data = core.rand_data(c, shp, s.dtype)
        if r.random() < 0.12:
            data[...] = s.fillval()
        self.write(lo, hi, data, r.choice(["setitem", "subarray", "direct", "cview", "cview"]) if self.pyio else "cview")

    # -- reads
    def read(self, lo, hi, how):
        c, s = self.c, self.s
        if how == "getitem":
            return self.ds[sl(lo, hi)]
        if how == "subarray":
            return self.ds.read_subarray(lo, hi)
        if how == "direct":
            out = np.empty([b - a for a, b in zip(lo, hi)], s.dtype)
            self.ds.read_direct(out, sl(lo, hi))
            return out
        v, base = core.strided(c, [b - a for a, b in zip(lo, hi)], s.dtype)
        before = base.copy()
        fn("read_view", s.dtype)(self.cpp, v, list(lo), self.nt)
        out = v.copy()
        # everything outside of the view must be untouched
        v[...] = core.guard(s.dtype)
        if not same(base, before):
            c.fail("read-wrote-outside-view", "reading %s:%s changed elements outside of the destination view" % (lo, hi))
        return out

    def check(self, lo=None, hi=None, how=None, key="read-mismatch"):
        c, s = self.c, self.s
        if lo is None:
            lo, hi = (0,) * s.ndim, s.shape
        how = how or c.rnd.choice(["getitem", "subarray", "direct", "cview", "cview"])
        if not self.pyio:
            how = "cview"
        got = self.read(lo, hi, how)
        exp = self.model[sl(lo, hi)]
        c.ev("reads")
        c.ev("elements_compared", int(exp.size))
        if not same(got, exp):
            c.fail(key, "%s read of %s:%s nt=%d (%s): %s" % (how, lo, hi, self.nt, s.desc(), first_diff(got, exp)))
        return got

    def check_random(self):
        lo, hi = core.rand_roi(self.c, self.s.shape, self.s)
        return self.check(lo, hi)

    # -- files
    def chunk_file(self, cid):
        s = self.s
        if s.fmt == "n5":
            return os.path.join(self.dspath, *[str(i) for i in reversed(cid)])
        ids = [str(i) for i in cid]
        if s.fmt == "zarr2" or s.enc == "v2":
            return os.path.join(self.dspath, s.sep.join(ids))
        return os.path.join(self.dspath, s.sep.join(["c"] + ids))

    def shard_of(self, cid):
        return tuple(i * ch // sh for i, ch, sh in zip(cid, self.s.chunks, self.s.shards))

    def store_file(self, cid):
        """the file holding this chunk: its own or its shard's"""
        return self.chunk_file(self.shard_of(cid) if self.s.shards else cid)

    def chunk_model(self, cid):
        return self.model[core.chunk_region(self.s, cid)]
