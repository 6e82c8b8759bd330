"""chunk interface, array interface and n5 varlen chunks against a per-chunk model"""
import os, struct
import numpy as np
from . import core, decode
from .core import fn, same, sl
from .session import Session


class St:
    """state of one chunk: kind None / 'arr' / 'var'; full = stored array incl. padding if that is known"""

    def __init__(self):
        self.kind, self.seq, self.full = None, None, None


def case(c, i):
    r = c.rnd
    f = ["n5", "n5", "zarr2", "zarr3", "zarr3"][i % 5]
    dtype = core.PYTYPES[i // 5 % 10]
    s = core.rand_spec(c, fmt=f, dtype=dtype, maxel=700, minchunks=2, sharded=(i % 5 == 4) if f == "zarr3" else None)
    se = Session(c, s)
    c.sig, c.sample = core.digest(s.desc(), i), s.desc()
    c.nontrivial = int(np.prod(s.grid)) > 1
    m = M(c, se)
    for _ in range(30):
        se.threads(r.choice([1, 1, 3]))
        k = r.random()
        if k < .3:
            m.write_chunk()
        elif k < .5 and f == "n5":
            m.write_varlen()
        elif k < .68:
            m.write_region()
        elif k < .74:
            m.remove()
        elif k < .78:
            se.reopen()
        elif k < .83 and f == "n5":
            m.partial_varlen()
        m.check(m.cid())
        if r.random() < .3:
            m.read_region()
    for cid in m.cells:
        m.check(cid)
    m.read_region(True)


class M:
    def __init__(self, c, se):
        self.c, self.se, self.s, self.r = c, se, se.s, c.rnd
        self.st = {}
        self.cells = [tuple(x) for x in np.ndindex(*self.s.grid)]
        for x in self.cells:
            self.st[x] = St()
        self.fill = self.s.fillval()
        self.last = self.cells[0]

    def cid(self):
        r = self.r
        if r.random() < .35:
            return self.last                 # the same chunk again
        if r.random() < .4:                  # border chunk
            x = tuple(g - 1 if r.random() < .7 else r.randrange(g) for g in self.s.grid)
        else:
            x = r.choice(self.cells)
        self.last = x
        return x

    def inb(self, cid):
        return tuple(x.stop - x.start for x in core.chunk_region(self.s, cid))

    def data(self, shp):
        a = core.rand_data(self.c, shp, self.s.dtype)
        if self.r.random() < .1:
            a[...] = self.fill
        return a

    def absent(self, a):
        return bool(np.all(a == self.fill))

    def write_chunk(self):
        c, s, se, r = self.c, self.s, self.se, self.r
        cid = self.cid()
        shp = s.chunks if s.zarr else self.inb(cid)
        a = self.data(shp)
        if s.zarr and r.random() < .5:
            full = np.full(s.chunks, self.fill, s.dtype)
            full[tuple(slice(0, n) for n in self.inb(cid))] = a[tuple(slice(0, n) for n in self.inb(cid))]
            a = full
        how = r.choice(["py", "cpp"])
        c.note("write_chunk", how, cid, "absent" if self.absent(a) else "")
        if how == "py":
            p = a
            if r.random() < .3:
                p = a.ravel()               # only the number of elements counts
            se.ds.write_chunk(list(cid), p)
        else:
            fn("write_chunk", s.dtype)(se.cpp, a, list(cid))
        st = self.st[cid]
        st.kind = None if self.absent(a) else "arr"
        st.seq, st.full = None, a
        se.model[core.chunk_region(s, cid)] = a[tuple(slice(0, n) for n in self.inb(cid))]
        c.ev("chunk_writes_" + how)

    def write_varlen(self):
        c, s, se, r = self.c, self.s, self.se, self.r
        cid = self.cid()
        n = int(np.prod(self.inb(cid)))
        k = r.choice([0, 1, 2, n - 1, n, n + 1, n * 3, r.randint(1, 500), 5000])
        a = core.rand_data(c, (max(0, k),), s.dtype, r.choice(["full", "small", "const"]))
        if r.random() < .15:
            a[...] = 0
        how = r.choice(["py", "cpp"])
        c.note("write_varlen", how, cid, k)
        if how == "py":
            se.ds.write_chunk(list(cid), a, True)
        else:
            fn("write_chunk", s.dtype)(se.cpp, a if a.size else np.zeros(1, s.dtype), list(cid), True, int(a.size))
        st = self.st[cid]
        st.kind = "var" if a.size else None
        st.seq, st.full = (a, None) if a.size else (None, np.zeros(self.inb(cid), s.dtype))
        se.model[core.chunk_region(s, cid)] = 0
        c.ev("varlen_writes")

    def overlap(self, lo, hi):
        g = [range(a // ch, -(-b // ch)) for a, b, ch in zip(lo, hi, self.s.chunks)]
        out = []
        for x in np.ndindex(*[len(y) for y in g]):
            cid = tuple(y[k] for y, k in zip(g, x))
            reg = core.chunk_region(self.s, cid)
            comp = all(a <= q.start and q.stop <= b for a, b, q in zip(lo, hi, reg))
            out.append((cid, comp))
        return out

    def write_region(self):
        c, s, se, r = self.c, self.s, self.se, self.r
        lo, hi = core.rand_roi(c, s.shape, s)
        ov = self.overlap(lo, hi)
        if any(not comp and self.st[cid].kind == "var" for cid, comp in ov):
            return
        shp = [b - a for a, b in zip(lo, hi)]
        if r.random() < .25:
            v = core.rand_data(c, (1,), s.dtype, "full")[0] if r.random() < .6 else self.fill
            se.write_scalar(lo, hi, v, r.choice(["py", "cpp"]))
        else:
            se.write(lo, hi, self.data(shp), r.choice(["setitem", "subarray", "cview"]))
        for cid, comp in ov:
            st = self.st[cid]
            inb = se.model[core.chunk_region(s, cid)]
            edge = s.zarr and self.inb(cid) != tuple(s.chunks)
            st.seq = None
            if not edge:
                st.full = inb.copy()
                st.kind = None if self.absent(inb) else "arr"
            else:
                st.full = None           # the padding is up to z5
                st.kind = "arr" if not self.absent(inb) else "?"

    def partial_varlen(self):
        """a part of a varlen chunk cannot be overwritten via the array interface"""
        c, s, se, r = self.c, self.s, self.se, self.r
        var = [x for x in self.cells if self.st[x].kind == "var"]
        if not var:
            return
        cid = r.choice(var)
        reg = core.chunk_region(s, cid)
        lo, hi = [x.start for x in reg], [x.stop for x in reg]
        d = [k for k in range(s.ndim) if hi[k] - lo[k] > 1]
        if not d:
            return
        d = r.choice(d)
        if r.random() < .5:
            lo[d] += 1
        else:
            hi[d] -= 1
        shp = [b - a for a, b in zip(lo, hi)]
        c.note("partial over varlen", cid, lo, hi)
        if r.random() < .3:
            e = core.raises(lambda: fn("write_scalar", s.dtype)(se.cpp, core.scalar_arr(1, s.dtype), lo, shp, 1))
        else:
            e = core.raises(lambda: se.ds.write_subarray(lo, self.data(shp)))
        if e is None:
            c.fail("partial-write-over-varlen", "%s %s %s was accepted" % (s.desc(), lo, hi))
        c.ev("partial_varlen_writes")

    def remove(self):
        c, s, se = self.c, self.s, self.se
        cid = self.cid()
        c.note("remove", cid)
        self.se.cpp.remove_chunk(list(cid))
        st = self.st[cid]
        st.kind, st.seq, st.full = None, None, None
        se.model[core.chunk_region(s, cid)] = self.fill
        c.ev("chunk_removals")

    def read_region(self, everything=False):
        c, s, se, r = self.c, self.s, self.se, self.r
        lo, hi = ([0] * s.ndim, list(s.shape)) if everything else core.rand_roi(c, s.shape, s)
        if any(self.st[cid].kind == "var" for cid, _ in self.overlap(lo, hi)):
            # never silently presented as array data
            how = r.choice(["getitem", "subarray", "cview"])
            e = core.raises(lambda: se.read(lo, hi, how))
            c.ev("varlen_region_reads")
            if e is None:
                c.fail("varlen-read-as-array", "%s %s:%s" % (s.desc(), lo, hi))
            return
        se.check(lo, hi)

    def check(self, cid):
        c, s, se, r = self.c, self.s, self.se, self.r
        st = self.st[cid]
        ex = se.ds.chunk_exists(cid) if r.random() < .5 else se.cpp.chunk_exists(list(cid))
        kind = st.kind
        if kind == "?":
            kind = "arr" if ex else None
        c.ev("chunk_checks")
        if bool(ex) != (kind is not None):
            c.fail("existence", "%s chunk %s: exists=%s, expected state %s" % (s.desc(), cid, ex, kind))
        got = se.ds.read_chunk(cid)
        inb = self.inb(cid)
        if kind is None:
            c.ev("missing_chunk_reads")
            if got is not None:
                c.fail("missing-chunk", "%s: read_chunk(%s) of a missing chunk returned %r" % (s.desc(), cid, got))
            out = np.full(s.chunks, core.guard(s.dtype), s.dtype)
            e = core.raises(lambda: fn("read_chunk", s.dtype)(se.cpp, out, list(cid)))
            if e is None:
                c.fail("missing-chunk-cpp", "%s: readChunk(%s) of a missing chunk returned" % (s.desc(), cid))
            if se.cpp.read_raw(list(cid)) != b"":
                c.fail("missing-chunk-raw", "%s chunk %s" % (s.desc(), cid))
            return
        var, n = se.cpp.check_varlen(list(cid))
        if kind == "var":
            c.ev("varlen_reads")
            if got is None or not same(got, st.seq):
                c.fail("varlen-content", "%s chunk %s: %s" % (s.desc(), cid, core.first_diff(np.zeros(0) if got is None else got, st.seq)))
            if not var or n != st.seq.size:
                c.fail("varlen-flag", "%s chunk %s: reported %s with %d elements, written %d" % (s.desc(), cid, var, n, st.seq.size))
            out = np.full(st.seq.size, core.guard(s.dtype), s.dtype)
            if fn("read_chunk", s.dtype)(se.cpp, out, list(cid)) is not True or not same(out, st.seq):
                c.fail("varlen-content-cpp", "%s chunk %s: %s" % (s.desc(), cid, core.first_diff(out, st.seq)))
            b = open(se.chunk_file(cid), "rb").read()
            mode, rank = struct.unpack(">HH", b[:4])
            dims = struct.unpack(">%dI" % rank, b[4:4 + 4 * rank])
            num = struct.unpack(">I", b[4 + 4 * rank:8 + 4 * rank])[0]
            raw = decode.decode(s.comp, b[8 + 4 * rank:], st.seq.nbytes)
            if mode != 1 or tuple(reversed(dims)) != inb or num != st.seq.size or not same(np.frombuffer(raw, np.dtype(s.dtype).newbyteorder(">")).astype(s.dtype), st.seq):
                c.fail("varlen-file", "%s chunk %s: mode %d dims %s num %d" % (s.desc(), cid, mode, dims, num))
            return
        if var:
            c.fail("ordinary-chunk-reported-varlen", "%s chunk %s" % (s.desc(), cid))
        shp = tuple(s.chunks) if s.zarr else inb
        exp = se.model[core.chunk_region(s, cid)]
        if got is None or got.shape != shp or got.dtype != np.dtype(s.dtype):
            c.fail("chunk-shape", "%s chunk %s: %s, expected shape %s" % (s.desc(), cid, None if got is None else (got.shape, got.dtype), shp))
        if not same(got[tuple(slice(0, k) for k in inb)], exp):
            c.fail("chunk-content", "%s chunk %s: %s" % (s.desc(), cid, core.first_diff(got[tuple(slice(0, k) for k in inb)], exp)))
        if st.full is not None and not same(got, st.full):
            c.fail("chunk-padding", "%s chunk %s: %s" % (s.desc(), cid, core.first_diff(got, st.full)))
        c.ev("chunk_reads")
        if inb != tuple(s.chunks):
            c.ev("edge_chunk_reads")
        out = np.full(shp, core.guard(s.dtype), s.dtype)
        if fn("read_chunk", s.dtype)(se.cpp, out, list(cid)) is not False or not same(out, got):
            c.fail("chunk-content-cpp", "%s chunk %s: %s" % (s.desc(), cid, core.first_diff(out, got)))
        for h in (False, True):
            if tuple(se.ds.get_chunk_shape(cid, h)) != inb or tuple(se.cpp.chunk_shape(list(cid), h)) != inb:
                c.fail("reported-chunk-shape", "%s chunk %s header=%s: %s" % (s.desc(), cid, h, se.ds.get_chunk_shape(cid, h)))
