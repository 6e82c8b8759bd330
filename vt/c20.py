"""zarr containers in S3: histories on S3File (served by an in-memory stand-in service) next to the same history on a
filesystem container and a numpy model; request failures injected at every position"""
import ctypes, json, os, pickle
import numpy as np
from . import core
from .core import same

GET, HEAD, PUT, DEL, DELS, LIST = range(6)
SERVER, FORBIDDEN, NETWORK, LOST_REPLY, TRUNCATED, PARTIAL = range(6)
KINDS = ["server error", "access denied", "network failure", "lost reply", "truncated body", "partial deletion"]
BUCKET = "bkt"
POOL = ["a", "ab", "abc", "b", "b2", "a.b", "0", "1", "10", "c", "data", "data2", "x y"]
S = None


class Service:
    def __init__(self):
        import z5py
        self.l = ctypes.CDLL(z5py._z5py.__file__)
        for n in ("counted", "failed", "requests", "clients", "misuse", "log", "identities", "dump"):
            getattr(self.l, "vts3_" + n).restype = ctypes.c_long

    def reset(self, objects=()):
        self.l.vts3_reset(BUCKET.encode())
        for k in objects:
            self.put(k, objects[k])

    def restore(self, objects):
        now = self.dump()
        for k in now:
            if k not in objects:
                self.l.vts3_delete(BUCKET.encode(), k.encode())
        for k in objects:
            if now.get(k) != objects[k]:
                self.put(k, objects[k])

    def put(self, k, v):
        self.l.vts3_put(BUCKET.encode(), k.encode(), v, ctypes.c_long(len(v)))

    def config(self, page=1000, delay=0, unknown=False, log=False):
        self.l.vts3_config(page, delay, int(unknown), int(log))

    def fault(self, mask=0, first=0, last=-1, kind=0, part=""):
        self.l.vts3_fault(mask, first, last, kind, part.encode())

    def _bytes(self, f, *a):
        n = f(*a, None, ctypes.c_long(0))
        b = ctypes.create_string_buffer(max(1, n))
        assert f(*a, b, ctypes.c_long(n)) == n
        return b.raw[:n]

    def dump(self):
        b = self._bytes(self.l.vts3_dump, BUCKET.encode())
        out, p = [], 0
        while p < len(b):
            n = int.from_bytes(b[p:p + 8], "little")
            out.append(b[p + 8:p + 8 + n])
            p += 8 + n
        return {out[i].decode(): out[i + 1] for i in range(0, len(out), 2)}

    def log(self):
        return self._bytes(self.l.vts3_log).decode().split("\n")[:-1]

    def identities(self):
        return self._bytes(self.l.vts3_identities).decode().split("\n")[:-1]

    def requests(self, *ops):
        return sum(self.l.vts3_requests(o) for o in ops)


def setup():
    global S
    S = Service()


ALL = 63
CONFIGS = [dict(endpoint_url="http://127.0.0.1:9", region="eu-1", access_key="AK", secret_key="SK"),
           dict(endpoint_url="https://s3.example.org", region="us-west-2", anon=True),
           dict(region="us-east-1"), dict(endpoint_url="localhost:9000", access_key="id", secret_key="")]
IDENTITY = ["http://127.0.0.1:9 path eu-1 AK:SK", "https://s3.example.org path us-west-2 :",
            "https:// virtual us-east-1 default:default", "https://localhost:9000 path us-east-1 id:"]


def comparable(files):
    """file name -> content, JSON documents parsed"""
    out = {}
    for k, v in files.items():
        if k.endswith("/") and v is None:
            continue
        if os.path.basename(k) in (".zgroup", ".zarray", ".zattrs", "zarr.json"):
            try:
                out[k] = ("json", json.loads(v))
            except ValueError:
                out[k] = ("broken", v)
        else:
            out[k] = v
    return out


def cmp(a, b):
    """differences of two comparable() results (NaN equal to NaN)"""
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or repr(a[k]) != repr(b[k])]


class World:
    def __init__(self, c, i):
        self.c = c
        r = c.rnd
        self.fmt = ["zarr2", "zarr3"][i % 2]
        self.prefix = r.choice(["", "con", "con/tai/ner.zarr", "a"])
        self.cfg = r.randrange(len(CONFIGS))
        self.sep = r.choice("./") if self.fmt == "zarr2" else None
        self.path = os.path.join(c.dir, "m.zarr")
        S.reset()
        self.around = {}
        if self.prefix:
            # other objects in the bucket, with names that share a prefix with the container
            for k in (self.prefix + "2/.zgroup", self.prefix + "0", self.prefix + "-/a/.zgroup", "other/" + self.prefix + "/.zgroup",
                      self.prefix[:-1] + "/x", "zz"):
                if k not in ("/x",) and not k.startswith(self.prefix + "/"):
                    self.around[k] = b'{"zarr_format": 2}'
            for k, v in self.around.items():
                S.put(k, v)
        self.configure()
        self.m = {}          # path -> Spec or None (group)
        self.data = {}       # path -> numpy model
        self.s3 = self.fs = None
        self.open("a")

    def configure(self):
        r = self.c.rnd
        self.page = r.choice([1000, 1000, 1, 2, 3, 7])
        self.unknown = r.random() < 0.25
        S.config(self.page, r.choice([0, 0, 0, 30]), self.unknown)

    def open_s3(self, mode):
        import z5py
        return z5py.S3File(BUCKET, self.prefix, mode=mode, zarr_format=3 if self.fmt == "zarr3" else 2,
                           dimension_separator=self.sep, **CONFIGS[self.cfg])

    def open_fs(self, mode):
        import z5py
        return z5py.File(self.path, mode=mode, use_zarr_format=True, zarr_format=3 if self.fmt == "zarr3" else 2,
                         dimension_separator=self.sep)

    def open(self, mode):
        self.mode = mode
        self.s3 = self.open_s3(mode)
        if mode == "w" and os.path.exists(self.path):
            import shutil
            shutil.rmtree(self.path)
        self.fs = self.open_fs("a" if mode == "w" else mode)

    # -- comparison
    def inside(self, dump=None):
        dump = S.dump() if dump is None else dump
        pre = self.prefix + "/" if self.prefix else ""
        return {k[len(pre):]: v for k, v in dump.items() if k.startswith(pre)}

    def surroundings(self, dump, what):
        pre = self.prefix + "/" if self.prefix else None
        if pre is None:
            return
        out = {k: v for k, v in dump.items() if not k.startswith(pre)}
        if out != self.around:
            self.c.fail("s3-outside", "%s changed objects outside of the container %r: %s" % (
                what, self.prefix, sorted(set(out.items()) ^ set(self.around.items()))[:4]))

    def compare(self, what):
        dump = S.dump()
        self.surroundings(dump, what)
        a = comparable(self.inside(dump))
        b = comparable(core.snapshot(self.path))
        d = cmp(a, b)
        if d:
            self.c.fail("s3-objects-differ", "after %s the objects differ from the files of the same history: %s; objects %s, files %s" % (
                what, d[:5], [a.get(k, "-") for k in d[:2]], [b.get(k, "-") for k in d[:2]]))
        self.c.ev("states_compared")
        self.c.ev("objects_compared", len(a))

    def both(self, what, f, key):
        """the same operation on both containers: same outcome"""
        res = []
        for root in (self.s3, self.fs):
            try:
                res.append(("ok", f(root)))
            except Exception as e:
                if type(e).__name__ in ("HarnessError", "Violation"):
                    raise
                res.append(("raised", e))
        (ka, a), (kb, b) = res
        self.c.note(what, ka, kb, "" if kb == "ok" else repr(b)[:80])
        self.c.ev("operations")
        if ka != kb:
            self.c.fail("s3-outcome:" + key, "%s on S3: %s %r; on the filesystem: %s %r" % (what, ka, a, kb, b))
        if ka == "raised":
            self.c.ev("raised_on_both")
            for py in (KeyError, ValueError, TypeError, IndexError):
                if isinstance(b, py) and not isinstance(a, py):
                    self.c.fail("s3-exception-type:" + key, "%s raises %r on S3 and %r on the filesystem" % (what, a, b))
        elif not equal(a, b):
            self.c.fail("s3-result:" + key, "%s returns %s on S3 and %s on the filesystem" % (what, brief(a), brief(b)))
        return ka, a

    # -- operations: (what, function, expected model update)
    def groups(self):
        return [""] + [k for k, v in self.m.items() if v is None]

    def datasets(self):
        return [k for k, v in self.m.items() if v is not None]

    def name(self):
        r = self.c.rnd
        g = r.choice(self.groups())
        k = r.random()
        if k < 0.25 and self.m:
            return r.choice(list(self.m))
        n = r.choice(POOL)
        if k > 0.8:
            n += "/" + r.choice(POOL)
        return (g + "/" if g else "") + n

    def blocked(self, name):
        """a proper prefix of name is a dataset (nothing to do with such names is claimed)"""
        parts = name.split("/")
        return any("/".join(parts[:k]) in self.m and self.m["/".join(parts[:k])] is not None for k in range(1, len(parts)))

    def at(self, root, path, via):
        """the group and the remaining name under which path is addressed"""
        if not via:
            return root, path
        return root[via], path[len(via) + 1:]

    def pick_via(self, name):
        r = self.c.rnd
        gs = [g for g in self.groups() if g and name.startswith(g + "/")]
        return r.choice(gs) if gs and r.random() < 0.4 else ""

    def spec(self):
        c = self.c
        s = core.rand_spec(c, fmt=self.fmt, maxel=400)
        if self.fmt == "zarr2":
            s.sep = self.sep
        return s

    def add_parents(self, name):
        parts = name.split("/")
        for k in range(1, len(parts)):
            self.m.setdefault("/".join(parts[:k]), None)

    def step(self):
        c, r = self.c, self.c.rnd
        k = r.random()
        ds = self.datasets()
        if k < 0.12:
            self.make_group()
        elif k < 0.27 or not ds:
            self.make_dataset()
        elif k < 0.52:
            self.write(r.choice(ds))
        elif k < 0.66:
            self.read(r.choice(ds))
        elif k < 0.76:
            self.attributes()
        elif k < 0.82:
            self.remove()
        elif k < 0.90:
            self.queries()
        elif k < 0.93:
            self.reopen()
        elif k < 0.96:
            self.pickling()
        else:
            self.configure()

    def make_group(self):
        r = self.c.rnd
        name = self.name()
        if self.blocked(name):
            return
        via = self.pick_via(name)
        req = r.random() < 0.4

        def f(root):
            g, n = self.at(root, name, via)
            return (g.require_group(n) if req else g.create_group(n)).name.rstrip("/").split("/")[-1]
        k, _ = self.both("%s_group %s (via %r)" % ("require" if req else "create", name, via), f, "group")
        if k == "ok" and name not in self.m:
            self.add_parents(name)
            self.m[name] = None

    def make_dataset(self):
        c, r = self.c, self.c.rnd
        name = self.name()
        if self.blocked(name):
            return
        via = self.pick_via(name)
        s = self.spec()
        data = core.rand_data(c, s.shape, s.dtype) if r.random() < 0.3 else None
        nt = r.choice([1, 1, 3])
        req = r.random() < 0.25
        bad = r.random() < 0.12
        kw = dict(s.opts)
        kw["fillvalue"] = s.fill
        if s.fmt == "zarr3":
            kw["chunk_key_encoding"] = s.enc
            if s.shards:
                kw["shards"] = s.shards
        comp = s.comp
        if bad:
            w = r.randrange(4)
            if w == 0:
                comp = "nope"
            elif w == 1:
                kw["fillvalue"] = "x"
            elif w == 2:
                s.chunks = s.chunks + (1,)
            else:
                s.dtype = "complex64" if data is None else s.dtype

        def f(root):
            g, n = self.at(root, name, via)
            if req:
                d = g.require_dataset(n, s.shape, s.dtype, s.chunks, n_threads=nt, compression=comp, **kw)
            else:
                d = g.create_dataset(n, shape=s.shape, dtype=s.dtype, chunks=s.chunks, data=data, compression=comp, n_threads=nt, **kw)
            return facts(d)
        k, _ = self.both("%s_dataset %s (via %r) %s%s" % ("require" if req else "create", name, via, s.desc(), " data" if data is not None else ""),
                         f, "dataset" + ("-bad" if bad else ""))
        if k == "ok" and name not in self.m:
            self.add_parents(name)
            s.key = name
            self.m[name] = s
            self.data[name] = np.full(s.shape, s.fillval(), s.dtype) if data is None or req else data.copy()
        elif k == "raised":
            # parents may have been made before the failure
            for p in range(1, len(name.split("/"))):
                q = "/".join(name.split("/")[:p])
                if q not in self.m and q in self.fs:
                    self.m[q] = None

    def write(self, d):
        c, r, s = self.c, self.c.rnd, self.m[d]
        nt = r.choice([1, 1, 2, 4])
        k = r.random()
        if k < 0.2:
            cid = tuple(r.randrange(g) for g in s.grid)
            reg = core.chunk_region(s, cid)
            if r.random() < 0.3:
                kk, _ = self.both("remove_chunk %s %s" % (d, cid), lambda root: root[d]._impl.remove_chunk(list(cid)), "remove-chunk")
                if kk == "ok":
                    self.data[d][reg] = s.fillval()
                return
            val = core.rand_data(c, [x.stop - x.start for x in reg], s.dtype)
            full = np.full(s.chunks, s.fillval(), dtype=s.dtype)
            full[tuple(slice(0, n) for n in val.shape)] = val
            kk, _ = self.both("write_chunk %s %s" % (d, cid), lambda root: root[d].write_chunk(list(cid), full), "write-chunk")
            if kk == "ok":
                self.data[d][reg] = val
            return
        lo, hi = core.rand_roi(c, s.shape, s)
        if k < 0.4:
            val = core.rand_data(c, (1,), s.dtype)[0].item() if r.random() < 0.6 else s.fillval().item()
        else:
            val = core.rand_data(c, [b - a for a, b in zip(lo, hi)], s.dtype)
            if r.random() < 0.15:
                val[...] = s.fillval()
        if r.random() < 0.07:
            hi = tuple(h + 1 for h in hi[:-1]) + (s.shape[-1] + 1,)      # out of bounds (or a wrong shape)

        def f(root):
            x = root[d]
            x.n_threads = nt
            if isinstance(val, np.ndarray) and val.shape == tuple(b - a for a, b in zip(lo, hi)):
                x[core.sl(lo, hi)] = val
            elif isinstance(val, np.ndarray):
                x.write_subarray(lo, np.zeros([b - a for a, b in zip(lo, hi)], s.dtype))
            else:
                x[core.sl(lo, hi)] = val
        kk, _ = self.both("write %s %s:%s nt=%d" % (d, lo, hi, nt), f, "write")
        if kk == "ok":
            self.data[d][core.sl(lo, hi)] = val

    def read(self, d):
        c, r, s = self.c, self.c.rnd, self.m[d]
        if r.random() < 0.3:
            cid = tuple(r.randrange(g) for g in s.grid)
            self.both("read_chunk %s %s" % (d, cid), lambda root: root[d].read_chunk(list(cid)), "read-chunk")
            self.both("chunk_exists %s %s" % (d, cid), lambda root: root[d].chunk_exists(list(cid)), "chunk-exists")
            return
        lo, hi = core.rand_roi(c, s.shape, s)
        nt = r.choice([1, 3])

        def f(root):
            x = root[d]
            x.n_threads = nt
            return x[core.sl(lo, hi)]
        k, a = self.both("read %s %s:%s nt=%d" % (d, lo, hi, nt), f, "read")
        if k != "ok":
            c.fail("s3-read-raised", "reading %s of %s raises %r" % ((lo, hi), d, a))
        if not same(a, self.data[d][core.sl(lo, hi)]):
            c.fail("s3-read-value", "%s [%s:%s]: %s" % (d, lo, hi, core.first_diff(a, self.data[d][core.sl(lo, hi)])))
        c.ev("reads")

    def attributes(self):
        c, r = self.c, self.c.rnd
        node = r.choice(list(self.m) + [""])
        key = r.choice(["k", "l", "ä", "k.l", "unit", ""])
        val = r.choice([1, -2.5, "t", True, None, [1, [2, "x"]], {"a": {"b": []}}, "ü", 2 ** 60, []])
        what = r.choice(["set", "set", "get", "del", "update", "keys", "in"])

        def f(root):
            a = (root[node] if node else root).attrs
            if what == "set":
                a[key] = val
            elif what == "get":
                return a[key]
            elif what == "del":
                del a[key]
            elif what == "update":
                a.update({key: val, "m": 3})
            elif what == "keys":
                return sorted(a.keys()), sorted((k, json.dumps(v)) for k, v in a.items()), len(a)
            else:
                return key in a
        self.both("attrs %s %s %s" % (what, node, key), f, "attrs-" + what)

    def remove(self):
        c, r = self.c, self.c.rnd
        name = r.choice(list(self.m)) if self.m and r.random() < 0.8 else self.name()
        if self.blocked(name):
            return
        via = self.pick_via(name)

        def f(root):
            g, n = self.at(root, name, via)
            del g[n]
        k, _ = self.both("del %s" % name, f, "del")
        if k == "ok":
            for q in list(self.m):
                if q == name or q.startswith(name + "/"):
                    del self.m[q]
                    self.data.pop(q, None)

    def queries(self):
        c, r = self.c, self.c.rnd
        g = r.choice(self.groups())
        name = self.name()
        pick = r.randrange(5)

        def f(root):
            x = root[g] if g else root
            if pick == 0:
                return sorted(x.keys()), len(x), sorted(x), x.name, x.is_zarr
            if pick == 1:
                return name in root, root.get(name) is not None if not self.blocked(name) else None
            if pick == 2:
                seen = []
                x.visititems(lambda n, o: seen.append((n, facts(o) if hasattr(o, "chunks") else "group")))
                return sorted(seen, key=lambda t: t[0])
            if pick == 3:
                return sorted((k, hasattr(v, "chunks"), v.name if hasattr(v, "name") else None) for k, v in x.items())
            return [name in x, x.is_sub_group(name) if name in x else None]
        if pick in (1, 4) and self.blocked((g + "/" if g and pick == 4 else "") + name):
            return
        self.both("query %d of %r (%s)" % (pick, g, name), f, "query-%d" % pick)

    def reopen(self):
        r = self.c.rnd
        mode = r.choice(["a", "r+", "r", "x", "w-", "w"] if r.random() < 0.5 else ["a", "r+"])
        if mode in ("x", "w-"):
            before = S.dump()
            e = core.raises(lambda: self.open_s3(mode))
            if e is None:
                self.c.fail("s3-mode-x", "mode %r opened an existing container" % mode)
            if S.dump() != before:
                self.c.fail("s3-mode-x", "mode %r changed an existing container" % mode)
            return
        if mode == "r":
            self.readonly()
            return
        self.open(mode)
        if mode == "w":
            self.m, self.data = {}, {}
        self.compare("opening with mode %r" % mode)

    def readonly(self):
        """mode r: everything reads, nothing writes"""
        c = self.c
        keep = self.s3, self.fs
        self.open("r")
        before = S.dump()
        w0 = S.requests(PUT, DEL, DELS)
        for _ in range(5):
            c.rnd.choice([self.make_group, self.make_dataset, lambda: self.datasets() and self.write(c.rnd.choice(self.datasets())),
                          self.attributes, self.remove, self.queries])()
        for d in self.datasets()[:2]:
            self.read(d)
        if S.dump() != before:
            c.fail("s3-readonly", "a container opened with mode 'r' was changed: %s" % (set(S.dump().items()) ^ set(before.items())))
        if S.requests(PUT, DEL, DELS) != w0:
            c.fail("s3-readonly", "modifying requests were sent in mode 'r': %s" % S.log()[-10:])
        c.ev("readonly_rounds")
        self.s3, self.fs = keep

    def pickling(self):
        c = self.c
        node = c.rnd.choice(list(self.m) + [""])
        x = self.s3[node] if node else self.s3
        y = pickle.loads(pickle.dumps(x))
        if self.m.get(node) is not None:
            if not same(y[:], self.data[node]) or facts(x) != facts(y):
                c.fail("s3-pickle", "the unpickled dataset %s differs" % node)
        elif sorted(x.keys()) != sorted(y.keys()) or y.name.lstrip("/") != node:
            c.fail("s3-pickle", "the unpickled group %r differs: %s, %s" % (node, sorted(y.keys()), y.name))
        if not node:
            self.s3 = y
        c.ev("pickles")

    def identities(self):
        ids = S.identities()
        if ids != [IDENTITY[self.cfg]]:
            self.c.fail("s3-configuration", "requests were made as %s, the file was opened with %s" % (ids, CONFIGS[self.cfg]))
        if S.l.vts3_misuse():
            self.c.fail("s3-sdk-misuse", "the SDK was used before its initialisation or after its shutdown")

    def foreign(self):
        """the format and separator passed when opening only matter for what is created"""
        import z5py
        f = z5py.S3File(BUCKET, self.prefix, mode="r", zarr_format=self.c.rnd.choice([2, 3]),
                        dimension_separator=self.c.rnd.choice([None, ".", "/"]), **CONFIGS[self.cfg])
        for d in self.datasets():
            if not same(f[d][:], self.data[d]) or f[d].shape != tuple(self.m[d].shape):
                self.c.fail("s3-foreign-open", "%s is read differently when the container is opened with other creation options" % d)
            self.c.ev("foreign_reads")

    def verify_all(self, what):
        for d in self.datasets():
            a = self.s3[d][:]
            if not same(a, self.data[d]):
                self.c.fail("s3-read-value", "%s: %s: %s" % (what, d, core.first_diff(a, self.data[d])))


def facts(d):
    return (tuple(d.shape), tuple(d.chunks), tuple(d.shards or ()), str(d.dtype), d.compression, sorted((k, str(v)) for k, v in d.compression_opts.items()),
            d.is_zarr, tuple(d.chunks_per_dimension), d.number_of_chunks, d.ndim, d.size, d.name)


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and same(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return repr(a) == repr(b)


def brief(a):
    return repr(a)[:300]


# ---------------------------------------------------------------------------------------------

def case(c, i):
    if i % 10 == 9:
        from .c07 import run_bin
        seed = c.rnd.getrandbits(30)
        c.sig, c.nontrivial, c.sample = core.digest("n5", seed), True, "n5 history over the C++ interface, seed %d" % seed
        os.mkdir(c.dir + "/n")
        run_bin(c, "cloud", ["s3n5", seed, c.dir + "/n/con.n5"], "n5")
        if i % 100 == 9:
            run_bin(c, "cloud", ["gcs"], "gcs")
        return
    missing(c, i)
    w = World(c, i)
    c.sig, c.nontrivial = core.digest(w.fmt, w.prefix, i), True
    k = i % 4
    n = c.rnd.randint(10, 30)
    for t in range(n):
        w.step()
        if t % 3 == 2:
            w.compare("step %d" % t)
    w.compare("the history")
    w.verify_all("after the history")
    w.identities()
    c.sample = "%s prefix %r, %d nodes, page %d" % (w.fmt, w.prefix, len(w.m), w.page)
    w.foreign()
    if k == 0:
        damage(c, w)
    if k in (1, 2):
        faults(c, w)
    elif k == 3 and i % 16 == 3:
        many(c, w)


def missing(c, i):
    """a container that does not exist: modes r and r+ refuse and create nothing; objects next to it do not make it exist"""
    import z5py
    r = c.rnd
    name = r.choice(["con", "a/b", "m.zarr"])
    S.reset()
    around = {name + "2/.zgroup": b"{}", name[:-1] + "/.zgroup": b"{}", name + ".zgroup": b"{}"}
    for k, v in around.items():
        S.put(k, v)
    for mode in ("r", "r+"):
        e = core.raises(lambda: z5py.S3File(BUCKET, name, mode=mode))
        if not isinstance(e, OSError):
            c.fail("s3-missing", "mode %r on a missing container: %r" % (mode, e))
        if S.dump() != around:
            c.fail("s3-missing", "mode %r on a missing container changed the bucket" % mode)
    mode = r.choice(["a", "w", "x", "w-"])
    f = z5py.S3File(BUCKET, name, mode=mode, zarr_format=2 + i % 2)
    now = S.dump()
    new = name + ("/zarr.json" if i % 2 else "/.zgroup")
    if set(now) - set(around) != {new} or any(now[k] != around[k] for k in around) or len(f.keys()):
        c.fail("s3-missing", "mode %r made %s" % (mode, sorted(set(now.items()) ^ set(around.items()))))
    # a bucket that does not exist is an error, not an empty container
    for mode in ("r", "a", "w"):
        if core.raises(lambda: z5py.S3File("no-such-bucket", name, mode=mode)) is None:
            c.fail("s3-missing-bucket", "mode %r opened a container in a bucket that does not exist" % mode)
    c.ev("missing_containers")


def damage(c, w):
    """the same damage to an object and to the file: both report it, or both give the same"""
    r = c.rnd
    objects = [k for k in w.inside() if os.path.basename(k) not in (".zgroup", ".zarray", ".zattrs", "zarr.json")]
    meta = [k for k in w.inside() if os.path.basename(k) in (".zarray", "zarr.json")]
    for _ in range(6):
        if not objects:
            return
        k = r.choice(objects if r.random() < 0.8 else meta)
        old = w.inside()[k]
        how = r.randrange(6)
        if how == 0:
            new = old[:r.randrange(len(old) + 1)]
        elif how == 1:
            new = b""
        elif how == 2:
            new = old + bytes(r.randrange(256) for _ in range(r.randint(1, 40)))
        elif how == 3 and len(old):
            j = r.randrange(len(old))
            new = old[:j] + bytes([old[j] ^ (1 << r.randrange(8))]) + old[j + 1:]
        elif how == 4:
            new = bytes(len(old))
        else:
            new = old[len(old) // 2:]
        ds = [d for d in w.datasets() if k.startswith(d + "/")]
        if not ds or (w.m[ds[0]].comp == "blosc" and how in (3, 4, 5)) or (k in meta and (how in (1, 2, 3) or not new)):
            continue
        d = max(ds, key=len)
        S.put((w.prefix + "/" if w.prefix else "") + k, new)
        with open(os.path.join(w.path, k), "wb") as h:
            h.write(new)
        w.both("read of %s with %s damaged (%d)" % (d, k, how), lambda root: root[d][:], "damaged-read")
        S.put((w.prefix + "/" if w.prefix else "") + k, old)
        with open(os.path.join(w.path, k), "wb") as h:
            h.write(old)
        c.ev("damaged_objects")
    w.verify_all("after undoing the damage")


def many(c, w):
    """more objects than one page of a listing and one deletion request can hold"""
    n = c.rnd.choice([1001, 1500, 2300])
    S.config(1000, 0, False)
    for root in (w.s3, w.fs):
        d = root.create_dataset("many/d" if "many" not in root else "many2/d", shape=(n,), chunks=(1,), dtype="uint8", compression="raw", n_threads=4)
        d[:] = 7
    name = "many2" if "many2" in w.s3 else "many"
    w.compare("writing %d chunks" % n)
    objects = len(S.dump())
    for root in (w.s3, w.fs):
        del root[name]
    w.compare("removing %d objects" % n)
    if len(S.dump()) > objects - n:
        c.fail("s3-remove-many", "objects remain")
    c.ev("large_removals")


def faults(c, w):
    """one request of an operation fails: the operation raises, or it did and returned what it would have without"""
    r = c.rnd
    base = S.dump()
    for _ in range(4 if c.tier == "quick" else 10):
        S.fault(0)
        S.restore(base)
        w.s3 = w.open_s3("a")
        op = operation(c, w)
        if op is None:
            continue
        what, f, target, retry = op
        S.restore(base)
        S.config(w.page, 0, w.unknown, True)
        S.fault(ALL)
        w.s3 = w.open_s3("a")
        S.fault(ALL)
        l0 = len(S.log())
        try:
            good = ("ok", f(w.s3))
        except Exception as e:
            good = ("raised", type(e).__name__)
        total = S.l.vts3_counted()
        reqs = S.log()[l0:]
        after = S.dump()
        if not total:
            continue
        ks = list(range(total))
        r.shuffle(ks)
        for k in ks[:8 if c.tier == "quick" else 30]:
            for kind in r.sample(range(6), 3):
                o = reqs[k].split(" ")[0] if k < len(reqs) else ""
                if kind == TRUNCATED and (o != "GET" or w.unknown):
                    continue
                if kind == PARTIAL and o != "DELETE-MANY":
                    continue
                S.restore(base)
                S.fault(0)
                root = w.open_s3("a")
                S.fault(ALL, k, k if r.random() < 0.7 else 10 ** 6, kind)
                try:
                    res = ("ok", f(root))
                except Exception as e:
                    if type(e).__name__ in ("HarnessError", "Violation"):
                        raise
                    res = ("raised", e)
                hits = S.l.vts3_failed()
                S.fault(0)
                where = "%s, request %d of %d (%s) failed with: %s" % (what, k + 1, total, reqs[k] if k < len(reqs) else "?", KINDS[kind])
                if not hits:
                    c.ev("faults_not_reached")
                    continue
                c.ev("faults")
                now = S.dump()
                w.surroundings(now, where)
                if res[0] == "ok":
                    c.ev("faults_survived")
                    if good[0] != "ok" or not equal(res[1], good[1]):
                        c.fail("s3-fault-hidden", "%s: returned %s, without the failure: %s" % (where, brief(res[1]), brief(good)))
                    d = cmp(comparable(now), comparable(after))
                    if d:
                        c.fail("s3-fault-hidden", "%s: no error, but not the effect of the operation: %s" % (where, d[:6]))
                else:
                    c.ev("faults_reported")
                # no object but those of the operation changes, and each is the old or the new one
                for q in set(now) | set(base):
                    if now.get(q) != base.get(q) and now.get(q) != after.get(q):
                        ct = comparable({q: now[q]})[q] if q in now else None
                        if q in after and q in now and ct == comparable({q: after[q]})[q]:
                            continue
                        if intermediate(q, now.get(q), target):
                            continue
                        c.fail("s3-fault-damage", "%s: object %s is neither the old nor the new one: %r" % (where, q, now.get(q, b"-")[:100]))
                if res[0] == "raised" and retry:
                    try:
                        again = ("ok", f(w.open_s3("a")))
                    except Exception as e:
                        again = ("raised", type(e).__name__)
                    if again[0] != good[0] or (again[0] == "ok" and not equal(again[1], good[1])):
                        c.fail("s3-fault-retry", "%s: repeating the operation afterwards: %s instead of %s" % (where, brief(again), brief(good)))
                    d = cmp(comparable(S.dump()), comparable(after))
                    if d:
                        c.fail("s3-fault-retry", "%s: repeating the operation leaves other objects: %s" % (where, d[:6]))
                    c.ev("retries")
    S.restore(base)
    S.fault(0)
    S.config(w.page, 0, w.unknown)
    w.s3 = w.open_s3("a")
    w.compare("the fault rounds")


def intermediate(q, content, target):
    # a dataset or group that is being made with several requests on one object
    return False


def operation(c, w):
    """-> (what, function of the root, touched prefix, may be repeated)"""
    r = c.rnd
    ds = w.datasets()
    k = r.random()
    if ds and k < 0.35:
        d = r.choice(ds)
        s = w.m[d]
        lo, hi = core.rand_roi(c, s.shape, s)
        val = core.rand_data(c, [b - a for a, b in zip(lo, hi)], s.dtype)
        if r.random() < 0.2:
            val[...] = s.fillval()
        nt = r.choice([1, 1, 3])

        def f(root):
            x = root[d]
            x.n_threads = nt
            x[core.sl(lo, hi)] = val
        return "write %s %s:%s nt=%d" % (d, lo, hi, nt), f, d, True
    if ds and k < 0.55:
        d = r.choice(ds)
        nt = r.choice([1, 3])

        def f(root):
            x = root[d]
            x.n_threads = nt
            return x[:]
        return "read %s nt=%d" % (d, nt), f, d, True
    if ds and k < 0.62:
        d = r.choice(ds)
        s = w.m[d]
        cid = [r.randrange(g) for g in s.grid]
        return "chunk_exists/read_chunk %s %s" % (d, cid), lambda root: (root[d].chunk_exists(cid), root[d].read_chunk(cid)), d, True
    if k < 0.75:
        node = r.choice(list(w.m) + [""])
        what = r.choice(["set", "get", "del"])

        def f(root):
            a = (root[node] if node else root).attrs
            if what == "set":
                a["fk"] = 12
            elif what == "get":
                return sorted(a.items(), key=str)
            else:
                del a[key]
        if what == "del":
            keys = list((w.s3[node] if node else w.s3).attrs.keys())
            if not keys:
                return None
            key = r.choice(keys)
        return "attrs %s %s" % (what, node), f, node, what != "del"
    if k < 0.82 and w.m:
        node = r.choice(list(w.m))

        def f(root):
            if node in root:
                del root[node]
        return "del %s" % node, f, node, True
    if k < 0.9:
        g = r.choice(w.groups())

        def f(root):
            x = root[g] if g else root
            seen = []
            x.visititems(lambda n, o: seen.append((n, facts(o) if hasattr(o, "chunks") else "group")))
            return sorted(x.keys()), len(x), sorted(seen, key=lambda t: t[0])
        return "keys/visititems of %r" % g, f, g, True
    name = w.name()
    if w.blocked(name) or name in w.m:
        return None
    if r.random() < 0.5:
        return "create_group %s" % name, lambda root: root.create_group(name).name, name, False
    s = w.spec()

    def f(root):
        s.key = name
        return facts(core.create_py(root, s))
    return "create_dataset %s" % name, f, name, False
