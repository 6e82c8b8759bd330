"""C22: operations give back what they acquired. Every operation, whether it succeeds or fails, is repeated; file descriptors, threads, heap and
files in the container must not grow with the repetitions."""
import ctypes, gc, json, os, pickle
import numpy as np
from . import core
from .core import Shim, fn, sl

N = 6                   # repetitions per window
CONFIRM = 3             # further windows that must all grow


def setup():
    Shim()
    allocated()


_alloc = []


def allocated():
    """bytes in use according to the sanitizer's allocator"""
    if not _alloc:
        l = ctypes.CDLL(None)
        try:
            f = l.__sanitizer_get_current_allocated_bytes
        except AttributeError:
            raise core.HarnessError("the sanitizer's allocator is not preloaded")
        f.restype = ctypes.c_size_t
        _alloc.append(f)
        keep = ctypes.create_string_buffer(1 << 20)
        a = f()
        keep2 = ctypes.create_string_buffer(1 << 20)
        if f() - a < 1 << 20:
            raise core.HarnessError("the allocator does not count")
        del keep, keep2
    return _alloc[0]()


def files(path):
    n = 0
    for _, ds, fs in os.walk(path):
        n += len(ds) + len(fs)
    return n


class Meter:
    def __init__(self, path):
        self.path = path

    def take(self):
        gc.collect()
        return dict(descriptors=len(os.listdir("/proc/self/fd")), threads=len(os.listdir("/proc/self/task")),
                    files=files(self.path), heap=allocated())


def grown(a, b):
    """what grew by at least one unit per repetition"""
    return [k for k in b if b[k] - a[k] >= N * (16 if k == "heap" else 1)]


def repeat(c, meter, name, f, desc):
    """f() -> True if the operation succeeded; raises nothing"""
    c.note("op", name)
    ok = [f(), f(), f()]        # (caches, lazily created contexts)
    for good in ok:
        c.ev("succeeded" if good else "failed")
    a = meter.take()
    for _ in range(N):
        f()
    b = meter.take()
    c.ev("operations")
    c.ev("repetitions", N)
    g = grown(a, b)
    if not g:
        return
    c.ev("confirmations")
    seen = [{k: b[k] - a[k] for k in g}]
    for _ in range(CONFIRM):
        a = meter.take()
        for _ in range(N):
            f()
        b = meter.take()
        g = [k for k in g if k in grown(a, b)]
        if not g:
            return
        seen.append({k: b[k] - a[k] for k in g})
    c.fail("grows:%s:%s" % (g[0], name.split(" ")[0]), "%s (%s): growth of %s in %d windows of %d repetitions: %s" %
           (name, "succeeds" if ok[-1] else "fails", g, len(seen), N, desc + " " + str(seen)))


def attempt(f):
    def g():
        try:
            f()
            return True
        except core.HarnessError:
            raise
        except Exception:
            return False
    return g


def faulty(path, f, mode, mask, n, err):
    sh = Shim()

    def g():
        sh.arm(path, mode, mask, n, err)
        try:
            f()
            return sh.hits == 0
        except Exception:
            return False
        finally:
            sh.disarm()
    return g


def case(c, i):
    r = c.rnd
    if i % 4 == 3:
        return codecs(c, i)
    fmt = core.FORMATS[i % 3]
    s = core.rand_spec(c, fmt=fmt, maxel=800, cpp=False, minchunks=2, comp=core.COMP[fmt][i // 3 % len(core.COMP[fmt])])
    w = World(c, s)
    c.sig, c.nontrivial, c.sample = core.digest(s.desc(), i), max(s.grid) > 1, s.desc()
    ops = w.fine() + w.refused() + w.damaged() + w.faults()
    kinds = {}
    for o in ops:
        kinds.setdefault(o[0], []).append(o)
    for k, lst in sorted(kinds.items()):
        r.shuffle(lst)
        for name, f, before, after in [(x[1], x[2], x[3], x[4]) for x in lst[:{"fine": 9, "refused": 5, "damaged": 5, "fault": 5}[k]]]:
            if before:
                before()
            try:
                repeat(c, w.meter, name, f, s.desc())
            finally:
                if after:
                    after()
            c.ev("op_" + k)
    # the container still works
    got = w.f[s.key][...]
    if not core.same(got, w.m):
        c.fail("content", "%s: %s" % (s.desc(), core.first_diff(got, w.m)))


class World:
    def __init__(self, c, s):
        import z5vt
        self.c, self.s = c, s
        self.path = os.path.join(c.dir, "c" + s.file_ext())
        self.f = core.open_file(self.path, s)
        core.create_py(self.f, s, 1)
        self.m = core.rand_data(c, s.shape, s.dtype, "full")
        self.f[s.key][...] = self.m
        g = self.f.create_group("g")
        g.create_group("h/i")
        g.attrs["a"] = {"x": [1, 2, "y"]}
        self.f[s.key].attrs["unit"] = "nm"
        self.meter = Meter(self.path)
        self.cpp = z5vt.open(self.path, s.key)

    def ds(self):
        d = self.f[self.s.key]
        d.n_threads = self.c.rnd.choice([1, 1, 4])
        return d

    def op(self, kind, name, f, before=None, after=None):
        return (kind, name, attempt(f) if kind != "fault" else f, before, after)

    def chunk_data(self, cid):
        reg = core.chunk_region(self.s, cid)
        a = self.m[reg]
        if self.s.zarr:
            b = np.zeros(self.s.chunks, self.s.dtype)
            b[tuple(slice(0, n) for n in a.shape)] = a
            a = b
        return np.ascontiguousarray(a)

    def fine(self):
        """operations that succeed; each leaves the container as it was"""
        import z5py, z5vt
        c, s, r = self.c, self.s, self.c.rnd
        ds, m, f = self.ds(), self.m, self.f
        lo, hi = core.rand_roi(c, s.shape, s)
        reg = sl(lo, hi)
        part = np.ascontiguousarray(m[reg])
        cid = r.choice(core.all_chunks(s))
        data = self.chunk_data(cid)
        out = np.empty(s.shape, s.dtype)
        attrs = r.choice([f, f["g"], f[s.key]]).attrs
        zero = core.scalar_arr(s.fillval(), s.dtype)
        nt = r.choice([1, 3])

        def restore(g):
            def h():
                g()
                ds[...] = m
            return h

        def tree():
            f.create_group("t/u/v")
            f["t"].attrs["q"] = 1
            d = f["t/u"].create_dataset("w", shape=s.shape, chunks=s.chunks, dtype=s.dtype, compression="raw")
            d[...] = m
            del f["t"]

        def attr():
            attrs["k"] = [1, {"z": None}, "text"]
            attrs.update({"k2": 1.5})
            dict(attrs)
            del attrs["k"]
            del attrs["k2"]

        def reopen():
            g = core.open_file(self.path, s, "r")
            d = g[s.key]
            return d.shape, d.compression_opts, g["g/h"].name, g["g"].attrs["a"], sorted(g.keys())
        return [self.op("fine", *x) for x in (
            ("read", lambda: ds[...]), ("read-region", lambda: ds[reg]), ("write", lambda: ds.__setitem__(Ellipsis, m)),
            ("write-region", lambda: ds.__setitem__(reg, part)), ("write-chunk", lambda: ds.write_chunk(cid, data)),
            ("read-chunk", lambda: ds.read_chunk(cid)), ("fill-and-write", restore(lambda: ds.__setitem__(reg, zero[0]))),
            ("remove-chunk", restore(lambda: self.cpp.remove_chunk(list(cid)))),
            ("create-and-delete", tree), ("attributes", attr), ("reopen", reopen),
            ("visit", lambda: f.visititems(lambda n, o: None)), ("pickle", lambda: pickle.loads(pickle.dumps(ds))[reg]),
            ("require", lambda: (f.require_group("g/h"), f.require_dataset(s.key, s.shape, s.dtype))),
            ("views", lambda: (fn("read_view", s.dtype)(self.cpp, out, [0] * s.ndim, nt), fn("write_view", s.dtype)(self.cpp, m, [0] * s.ndim, nt))),
            ("scalar", restore(lambda: fn("write_scalar", s.dtype)(self.cpp, zero, list(lo), [b - a for a, b in zip(lo, hi)], nt))),
            ("unique", lambda: (fn("unique", s.dtype)(self.cpp, nt), fn("unique_counts", s.dtype)(self.cpp, nt))),
            ("trivial", restore(lambda: fn("remove_trivial", s.dtype)(self.cpp, nt, False, zero))),
            ("visit-chunks", lambda: self.cpp.visit_chunks(nt)), ("open-cpp", lambda: z5vt.open(self.path, s.key).read_raw(list(cid))),
            ("pool", lambda: z5vt.par(nt, 50)),
        )]

    def refused(self):
        import z5py, z5vt
        c, s, r = self.c, self.s, self.c.rnd
        ds, f, m = self.ds(), self.f, self.m
        ro = core.open_file(self.path, s, "r")
        out = [n + 1 for n in s.shape]
        wrong = "float32" if s.dtype != "float32" else "int16"
        meta = os.path.join(self.path, "bad")

        def bad_meta():
            os.mkdir(meta)
            for n in os.listdir(os.path.join(self.path, s.key)):
                if n in ("zarr.json", ".zarray", "attributes.json"):
                    j = json.load(open(os.path.join(self.path, s.key, n)))
                    k = r.choice(["shape", "chunks", "dataType", "dtype", "data_type", "blockSize", "dimensions", "codecs", "compressor", "chunk_grid"])
                    if k in j and r.random() < .6:
                        j[k] = r.choice([None, "nonsense", [0], {}])
                        t = json.dumps(j)
                    else:
                        t = json.dumps(j)[:r.randint(1, 40)]
                    open(os.path.join(meta, n), "w").write(t)

        def del_meta():
            for n in os.listdir(meta):
                os.unlink(os.path.join(meta, n))
            os.rmdir(meta)
        return [self.op("refused", *x) for x in (
            ("read-outside", lambda: ds.read_subarray([0] * s.ndim, out)), ("write-outside", lambda: ds.write_subarray(list(s.shape), m)),
            ("wrong-type", lambda: ds.write_subarray([0] * s.ndim, m.astype(wrong))), ("wrong-rank", lambda: ds.read_subarray([0] * (s.ndim + 1), [1] * (s.ndim + 1))),
            ("chunk-outside", lambda: ds.read_chunk(tuple(g + 1 for g in s.grid))), ("chunk-size", lambda: ds.write_chunk((0,) * s.ndim, np.zeros(1 + int(np.prod(s.chunks)), s.dtype))),
            ("create-existing", lambda: f.create_dataset(s.key, shape=(4,), chunks=(2,), dtype="int8")), ("group-existing", lambda: f.create_group("g")),
            ("missing", lambda: f["nothing"]), ("missing-file", lambda: z5py.File(self.path + "x", "r")), ("exclusive", lambda: z5py.File(self.path, "w-")),
            ("bad-specification", lambda: f.create_dataset("new", shape=(4, 4), chunks=(2,), dtype="int8")), ("bad-compressor", lambda: f.create_dataset("new", shape=(4,), chunks=(2,), dtype="int8", compression="nope")),
            ("read-only", lambda: ro[s.key].__setitem__(Ellipsis, m)), ("read-only-attributes", lambda: ro["g"].attrs.__setitem__("x", 1)),
            ("read-only-group", lambda: ro.create_group("z")), ("protected", lambda: ds.attrs.__setitem__("dimensions" if s.fmt == "n5" else "shape" if s.fmt == "zarr2" else "node_type", 1)),
            ("odd-attribute", lambda: ds.attrs.__setitem__("x", object())), ("open-damaged", lambda: f["bad"], bad_meta, del_meta), ("open-damaged-cpp", lambda: z5vt.open(self.path, "bad"), bad_meta, del_meta),
            ("unpickle-missing", lambda p=pickle.dumps(f["g"]).replace(b"g", b"q"): pickle.loads(p)),
        )]

    def damaged(self):
        """chunk and shard files with damage in each form; array and chunk reads, partial writes"""
        c, s, r = self.c, self.s, self.c.rnd
        ds, m = self.ds(), self.m
        target = []
        for d, _, fs in os.walk(os.path.join(self.path, s.key)):
            target += [os.path.join(d, x) for x in fs if x not in ("zarr.json", ".zarray", ".zattrs", "attributes.json", ".zgroup")]
        out = []
        for k in ("truncated", "empty", "extended", "noise", "tail", "head") if target else ():
            p = r.choice(target)
            cid = r.choice(core.all_chunks(s))
            b = open(p, "rb").read()
            n = len(b)
            lim = 16 if s.comp == "blosc" else n        # (c-blosc is not robust against changes of its payload)
            if k == "truncated":
                d = b[:r.randint(1, max(1, n - 1))]
            elif k == "empty":
                d = b""
            elif k == "extended":
                d = b + bytes(c.np.integers(0, 256, r.choice([1, 8, 100]), dtype=np.uint8))
            elif s.comp == "blosc" or s.comp == "raw" and k == "noise":
                d = b[:n // 2]
            elif k == "noise":
                d = bytes(c.np.integers(0, 256, n, dtype=np.uint8))
            elif k == "tail":
                d = b[:n // 2] + bytes(c.np.integers(0, 256, n - n // 2, dtype=np.uint8))
            else:
                d = bytes(c.np.integers(0, 256, min(n, 24), dtype=np.uint8)) + b[24:]
            lo, hi = core.rand_roi(c, s.shape, s)

            def put(x, p=p):
                with open(p, "wb") as f:
                    f.write(x)
            what, f = r.choice([("read", lambda: ds[...]), ("read-chunk", lambda cid=cid: ds.read_chunk(cid)), ("read", lambda: ds[...]),
                                ("unique", lambda: fn("unique_counts", s.dtype)(self.cpp, 2)), ("shape", lambda cid=cid: ds.get_chunk_shape(cid, True)),
                                ("write-part", lambda lo=lo, hi=hi: ds.__setitem__(sl(lo, hi), self.m[sl(lo, hi)]))])
            out.append(self.op("damaged", what + "-damaged " + k, f, lambda d=d, put=put: put(d), self.rewrite))
        return out

    def rewrite(self):
        """remove every chunk file and write everything again"""
        for d, _, fs in os.walk(os.path.join(self.path, self.s.key)):
            for x in fs:
                if x not in ("zarr.json", ".zarray", ".zattrs", "attributes.json", ".zgroup"):
                    os.unlink(os.path.join(d, x))
        self.f[self.s.key][...] = self.m

    def faults(self):
        """operations whose system calls fail"""
        c, s, r = self.c, self.s, self.c.rnd
        ds, m, f = self.ds(), self.m, self.f
        lo, hi = core.rand_roi(c, s.shape, s)
        reg = sl(lo, hi)
        part = np.ascontiguousarray(m[reg])
        import shutil
        cid = r.choice(core.all_chunks(s))

        def clean():
            shutil.rmtree(os.path.join(self.path, "t"), ignore_errors=True)

        def create():
            clean()
            f.create_group("t/u").create_dataset("w", shape=s.shape, chunks=s.chunks, dtype=s.dtype)

        ops = [("write", lambda: ds.__setitem__(Ellipsis, m), "w"), ("write-region", lambda: ds.__setitem__(reg, part), "w"), ("attributes", lambda: f["g"].attrs.__setitem__("k", 1), "w"),
               ("dataset-attributes", lambda: ds.attrs.__setitem__("k", 1), "w"), ("create", create, "w"), ("read", lambda: ds[...], "r"), ("read-chunk", lambda: ds.read_chunk(cid), "r"),
               ("open", lambda: f[s.key], "r"), ("read-attributes", lambda: dict(f["g"].attrs), "r"), ("list", lambda: list(f["g"].items()), "r"), ("open-file", lambda: core.open_file(self.path, s, "r")["g"], "r")]
        out = []
        for name, g, k in ops:
            mask = Shim.MUT if k == "w" else Shim.RD | 1 << Shim.OPENDIR
            n = r.choice([0, 0, 1, 2, 3, 5])
            err = r.choice([28, 5, 13, 24])
            mode = r.choice([Shim.FAIL, Shim.FAIL, Shim.STICKY])
            if mode == Shim.STICKY:
                mask &= ~(1 << Shim.UNLINK)     # (what was begun can be taken back)
            out.append(("fault", "%s-fault %d errno %d" % (name, n, err), faulty(self.path, g, mode, mask, n, err), None, clean if name == "create" else self.rewrite if k == "w" and "write" in name else None))
        return out


def codecs(c, i):
    """the codec classes themselves: valid streams, cut and damaged ones, wrong sizes"""
    import z5vt
    r = c.rnd
    fmt = core.FORMATS[i // 4 % 3]
    comp = [x for x in core.COMP[fmt] if x != "raw"][i // 12 % (len(core.COMP[fmt]) - 1)]
    dtype = r.choice(core.PYTYPES)
    s = core.rand_spec(c, fmt=fmt, dtype=dtype, comp=comp)
    s.opts = core.rand_opts(c, fmt, comp)
    k = getattr(z5vt, "Codec_" + dtype)(comp, core.cpp_opts(s), fmt != "n5")
    n = r.choice([1, 100, 5000, 40000])
    a = core.rand_data(c, (n,), dtype)
    b = k.compress(a)
    big, small, same = np.empty(n + 7, dtype), np.empty(max(1, n // 2), dtype), np.empty(n, dtype)
    c.sig, c.nontrivial, c.sample = core.digest(comp, dtype, n, i), True, "codec %s %s %d elements" % (comp, dtype, n)
    meter = Meter(c.dir)
    noise = bytes(c.np.integers(0, 256, len(b), dtype=np.uint8))
    ops = [("compress", lambda: k.compress(a)), ("decompress", lambda: k.decompress(b, same)), ("decompress-into-larger", lambda: k.decompress(b, big)),
           ("decompress-into-smaller", lambda: k.decompress(b, small)), ("decompress-cut", lambda: k.decompress(b[:len(b) // 2], same)),
           ("decompress-nothing", lambda: k.decompress(b"", same)), ("decompress-short", lambda: k.decompress(b[:-1], same)), ("threads", lambda: k.stress(a, 3, 2))]
    if comp != "blosc":
        flip = bytearray(b)
        flip[r.randrange(len(b))] ^= 1 << r.randrange(8)
        ops += [("decompress-noise", lambda: k.decompress(noise, same)), ("decompress-noise-after-head", lambda: k.decompress(b[:12] + noise, same)),
                ("decompress-flipped", lambda: k.decompress(bytes(flip), same))]
    for name, f in ops:
        repeat(c, meter, "%s:%s" % (comp, name), attempt(f), c.sample)
        c.ev("op_codec")
