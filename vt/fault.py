"""Shared by C09 (failed I/O) and C19 (crash): a container with several nodes, its model, operations on it and state comparison."""
import copy, os, shutil
import numpy as np
from . import core
from .core import fn, same, sl


class World:
    """reference: nodes {name: kind}, attributes {name: dict}, data {dataset: array}; target = dataset 'd'"""

    def __init__(self, c, fmt, sharded=False, dtype=None, maxel=500, comp=None):
        import z5py
        r = c.rnd
        self.c, self.fmt = c, fmt
        self.base = os.path.join(c.dir, "base" + (".n5" if fmt == "n5" else ".zarr"))
        s = core.rand_spec(c, fmt=fmt, dtype=dtype or r.choice(core.PYTYPES), sharded=sharded if fmt == "zarr3" else None, maxel=maxel, minchunks=3, comp=comp)
        e = core.rand_spec(c, fmt=fmt, dtype=r.choice(core.PYTYPES), sharded=None, maxel=60)
        e.sep = s.sep
        s.key, e.key = "d", "g/e"
        self.s, self.e = s, e
        f = core.open_file(self.base, s)
        core.create_py(f, s)
        f.create_group("g")
        core.create_py(f, e)
        f.create_group("g/h")
        self.nodes = {"d": "ds", "g": "grp", "g/e": "ds", "g/h": "grp"}
        self.attrs = {"": {"root": [1, 2]}, "d": {"k": "v", "n": 5, "l": [1, {"a": None}]}, "g": {"x": 1.5}, "g/e": {"other": True}, "g/h": {}}
        for n, a in self.attrs.items():
            if a:
                (f if not n else f[n]).attrs.update(a)
        if fmt == "n5":
            self.attrs[""]["n5"] = "2.0.0"     # the version of the container
        self.data = {}
        for q in (s, e):
            m = np.full(q.shape, q.fillval(), q.dtype)
            for cid in core.all_chunks(q):
                if r.random() < .8:
                    reg = core.chunk_region(q, cid)
                    x = core.rand_data(c, [z.stop - z.start for z in reg], q.dtype, r.choice(["full", "full", "small"]))
                    f[q.key][reg] = x
                    m[reg] = x
            self.data[q.key] = m
        # nan fills are stored when they were written, so ask the files
        from . import decode
        self.present = set(decode.load(decode.meta(os.path.join(self.base, "d"), fmt), True)[1])

    def clone(self):
        w = copy.copy(self)
        w.nodes, w.attrs = dict(self.nodes), copy.deepcopy(self.attrs)
        w.data = {k: v.copy() for k, v in self.data.items()}
        return w

    def checkout(self, name):
        p = os.path.join(self.c.dir, name + os.path.splitext(self.base)[1])
        shutil.rmtree(p, ignore_errors=True)
        shutil.copytree(self.base, p)
        return p

    def z5stored(self, q):
        """is this chunk of d stored"""
        return q in self.present

    def spec_of(self, n):
        return self.s if n == "d" else self.e


def attrs_of(o):
    return {k: o.attrs[k] for k in o.attrs}


def state(path, fmt, w):
    """what a fresh reader sees of the nodes of world w: {item: value or Exception}"""
    out = {}

    def take(k, g):
        try:
            out[k] = g()
        except Exception as e:
            out[k] = e
    import z5py
    try:
        f = core.open_file(path, fmt, "r")
    except Exception as e:
        return {"file": e}
    take("attrs:", lambda: attrs_of(f))
    for n, kind in w.nodes.items():
        def look():
            if n not in f:
                return None
            return "ds" if isinstance(f[n], z5py.Dataset) else "grp"
        take("node:" + n, look)
        take("attrs:" + n, lambda: attrs_of(f[n]))
        if kind == "ds":
            take("spec:" + n, lambda: (f[n].shape, f[n].chunks, str(f[n].dtype)))
            take("data:" + n, lambda: f[n][:])
    take("top", lambda: sorted(f.keys()))
    return out


def expected(w):
    out = {"attrs:": w.attrs[""], "top": sorted({n.split("/")[0] for n in w.nodes})}
    for n, kind in w.nodes.items():
        out["node:" + n] = kind
        out["attrs:" + n] = w.attrs[n]
        if kind == "ds":
            d = w.data[n]
            out["spec:" + n] = (tuple(d.shape), tuple(w.chunks_of(n)) if hasattr(w, "chunks_of") else tuple(w.spec_of(n).chunks), str(d.dtype))
            out["data:" + n] = d
    return out


def differs(got, exp, skip=()):
    """-> description of the first difference or None"""
    for k, e in exp.items():
        if k in skip:
            continue
        g = got.get(k, "nothing")
        if isinstance(e, np.ndarray):
            if not isinstance(g, np.ndarray) or not same(g, e):
                return "%s: %s" % (k, core.first_diff(g, e) if isinstance(g, np.ndarray) else repr(g)[:300])
        elif isinstance(g, Exception) or g != e:
            return "%s: got %r, expected %r" % (k, g, e)
    return None


class Handles:
    def __init__(self, path, w, n_threads=1):
        import z5vt
        self.path, self.w = path, w
        self.f = core.open_file(path, w.s, "a")
        self.ds = self.f["d"]
        self.ds.n_threads = n_threads
        self.nt = n_threads
        self.cpp = z5vt.open(path, "d", "a")


# ------------------------------------------------------------------------------------------ operations
# each returns dict(kind=, run=callable(handles), after=World, targets=set of chunk ids of 'd' (data ops) / items in `skip`)

def op_write(c, w, how=None):
    r, s = c.rnd, w.s
    lo, hi = core.rand_roi(c, s.shape, s)
    shp = [b - a for a, b in zip(lo, hi)]
    how = how or r.choice(["setitem", "setitem", "cview", "scalar", "scalar-cpp", "clear", "chunk", "chunk-cpp"])
    a = w.clone()
    if how in ("chunk", "chunk-cpp"):
        cid = tuple(r.randrange(g) for g in s.grid)
        reg = core.chunk_region(s, cid)
        lo, hi = [q.start for q in reg], [q.stop for q in reg]
        shp = [b - x for x, b in zip(lo, hi)]
        x = core.rand_data(c, shp, s.dtype, "full")
        pay = x
        if s.zarr:
            pay = np.full(s.chunks, s.fillval(), s.dtype)
            pay[tuple(slice(0, n) for n in shp)] = x
        if how == "chunk":
            run = lambda h: h.ds.write_chunk(list(cid), pay)
        else:
            run = lambda h: fn("write_chunk", s.dtype)(h.cpp, pay, list(cid))
    elif how in ("scalar", "scalar-cpp"):
        x = core.rand_data(c, (1,), s.dtype, "full")[0]
        if how == "scalar":
            run = lambda h: h.ds.__setitem__(sl(lo, hi), x.item())
        else:
            run = lambda h: fn("write_scalar", s.dtype)(h.cpp, core.scalar_arr(x, s.dtype), list(lo), shp, h.nt)
    else:
        x = core.rand_data(c, shp, s.dtype, "full")
        if how == "clear":
            lo = [q // ch * ch for q, ch in zip(lo, s.chunks)]
            hi = [min(-(-q // ch) * ch, n) for q, ch, n in zip(hi, s.chunks, s.shape)]
            shp = [b - q for q, b in zip(lo, hi)]
            x = np.full(shp, s.fillval(), s.dtype)
        if how == "cview":
            run = lambda h: fn("write_view", s.dtype)(h.cpp, x, list(lo), h.nt)
        else:
            run = lambda h: h.ds.__setitem__(sl(lo, hi), x)
    a.data["d"][sl(lo, hi)] = x
    t = {q for q in core.all_chunks(s) if all(k * ch < e and (k + 1) * ch > b for k, ch, b, e in zip(q, s.chunks, lo, hi))}
    return dict(kind="write:" + how, run=run, after=a, targets=t, skip={"data:d"}, repeat=True)


def op_attr(c, w, how=None):
    r = c.rnd
    n = r.choice(["", "d", "g", "g/e"])
    how = how or r.choice(["set", "set", "update", "del"])
    a = w.clone()
    val = r.choice(["text", 17, [1, 2, {"z": None}], True, "x" * r.choice([10, 5000, 20000]), {"deep": {"a": [0.5]}}])
    obj = lambda h: h.f if not n else h.f[n]
    if how == "set":
        k = r.choice(["k", "new", "n", "x"])
        a.attrs[n][k] = val
        run = lambda h: obj(h).attrs.__setitem__(k, val)
        ks = {k}
    elif how == "update":
        up = {"u1": val, "u2": 2, "k": [3]}
        a.attrs[n].update(up)
        run = lambda h: obj(h).attrs.update(up)
        ks = set(up)
    else:
        mine = sorted(set(a.attrs[n]) - {"n5"})
        if not mine:
            return op_attr(c, w, "set")
        k = r.choice(mine)
        del a.attrs[n][k]
        run = lambda h: obj(h).attrs.__delitem__(k)
        ks = {k}
    return dict(kind="attr:" + how, run=run, after=a, targets=set(), skip={"attrs:" + n}, repeat=True, attr=(n, ks))


def op_create(c, w, how=None):
    r = c.rnd
    how = how or r.choice(["ds", "ds", "nested-ds", "data", "grp", "nested-grp"])
    a = w.clone()
    if how in ("grp", "nested-grp"):
        n = "n" if how == "grp" else "g/h/n/m"
        run = lambda h: h.f.create_group(n)
        new = ["n"] if how == "grp" else ["g/h/n", "g/h/n/m"]
        for q in new:
            a.nodes[q], a.attrs[q] = "grp", {}
        return dict(kind="create:" + how, run=run, after=a, targets=set(), skip=set(), new=new, repeat=False)
    n = "g/q/x" if how == "nested-ds" else "x"
    new = ["g/q", "g/q/x"] if how == "nested-ds" else ["x"]
    if how == "nested-ds":
        a.nodes["g/q"], a.attrs["g/q"] = "grp", {}
    shape, chunks, dt = (7, 9), (3, 4), r.choice(core.PYTYPES)
    a.nodes[n], a.attrs[n] = "ds", {}
    a.data[n] = np.zeros(shape, dt)
    if how == "data":
        a.data[n] = core.rand_data(c, shape, dt, "full")
        run = lambda h: h.f.create_dataset(n, data=a.data[n], chunks=chunks, compression="raw")
    else:
        run = lambda h: h.f.create_dataset(n, shape=shape, dtype=dt, chunks=chunks, compression="raw")
    so = w.spec_of
    a.spec_of = lambda k: core.Spec(chunks=chunks) if k == n else so(k)
    return dict(kind="create:" + how, run=run, after=a, targets=set(), skip=set(), new=new, repeat=False)


def op_remove(c, w, how=None):
    r = c.rnd
    how = how or r.choice(["ds", "ds-cpp", "ds-remove", "sub-ds", "grp", "chunk", "trivial"])
    a = w.clone()
    s = w.s
    if how == "chunk":
        cid = tuple(r.randrange(g) for g in s.grid)
        a.data["d"][core.chunk_region(s, cid)] = s.fillval()
        return dict(kind="remove:chunk", run=lambda h: h.cpp.remove_chunk(list(cid)), after=a, targets={cid}, skip={"data:d"}, repeat=False)
    if how == "trivial":
        t = set()
        for cid in core.all_chunks(s):
            x = a.data["d"][core.chunk_region(s, cid)]
            if bool((x == x.flat[0]).all()) or (x.dtype.kind == "f" and bool(np.isnan(x).all())):
                x[...] = s.fillval()
                t.add(cid)
        nan = a.data["d"].dtype.kind == "f"
        return dict(kind="remove:trivial", run=lambda h: fn("remove_trivial", s.dtype)(h.cpp, h.nt, False, core.scalar_arr(a.data["d"].flat[0], s.dtype)),
                    after=a, targets=t, skip={"data:d"}, repeat=True, nan=nan)
    gone = {"ds": ["d"], "ds-cpp": ["d"], "ds-remove": ["d"], "sub-ds": ["g/e"], "grp": sorted(n for n in w.nodes if n == "g" or n.startswith("g/"))}[how]
    import z5vt
    run = {"ds": lambda h: h.f.__delitem__("d"), "ds-cpp": lambda h: z5vt.remove_dataset(h.cpp, h.nt), "ds-remove": lambda h: h.cpp.remove(),
           "sub-ds": lambda h: h.f["g"].__delitem__("e"), "grp": lambda h: h.f.__delitem__("g")}[how]
    skip = {"top"}
    for n in gone:
        for k in ("node:", "attrs:", "spec:", "data:"):
            skip.add(k + n)
        for m in (a.nodes, a.attrs, a.data):
            m.pop(n, None)
    return dict(kind="remove:" + how, run=run, after=a, targets=set(core.all_chunks(s)) if "d" in gone else set(), skip=skip, repeat=False, gone=gone)


def equal(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and same(a, b)
    if isinstance(b, (tuple, list)) and any(isinstance(x, np.ndarray) for x in b):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def warm():
    """the first use opens libraries"""
    import z5py, z5vt  # noqa: F401


def op_read(c, w, how=None):
    """-> dict(kind, run, read=True, value)"""
    import z5py
    r, s = c.rnd, w.s
    d = w.data["d"]
    how = how or r.choice(["region", "region", "cview", "cview", "chunk", "chunk-cpp", "unique", "counts", "exists", "attrs", "attr", "attr-in", "attr-len",
                           "open", "list", "contains", "open-file", "open-cpp", "require", "items", "raw"])
    lo, hi = core.rand_roi(c, s.shape, s)
    cid = tuple(r.randrange(g) for g in s.grid)
    reg = core.chunk_region(s, cid)
    stored = {q for q in core.all_chunks(s) if w.z5stored(q)}
    n = r.choice(["", "d", "g", "g/e"])
    obj = lambda h: h.f if not n else h.f[n]

    def cview(h):
        out = np.zeros([b - a for a, b in zip(lo, hi)], s.dtype)
        fn("read_view", s.dtype)(h.cpp, out, list(lo), h.nt)
        return out

    def chunk_cpp(h):
        if not h.cpp.chunk_exists(list(cid)):
            return "missing"
        shp = list(s.chunks) if s.zarr else [q.stop - q.start for q in reg]
        x = np.zeros(shp, s.dtype)
        fn("read_chunk", s.dtype)(h.cpp, x, list(cid))
        return x[tuple(slice(0, q.stop - q.start) for q in reg)].copy()

    def chunk_py(h):
        x = h.ds.read_chunk(list(cid))
        return "missing" if x is None else x[tuple(slice(0, q.stop - q.start) for q in reg)].copy()
    vals = [d[core.chunk_region(s, q)].ravel() for q in sorted(stored)]
    vals = np.concatenate(vals) if vals else d.ravel()[:0]
    if how in ("unique", "counts") and d.dtype.kind == "f" and np.isnan(vals).any():
        how = "region"
    u = sorted(set(vals.tolist()))
    ops = {
        "region": (lambda h: h.ds[sl(lo, hi)], d[sl(lo, hi)]),
        "cview": (cview, d[sl(lo, hi)]),
        "chunk": (chunk_py, d[reg].copy() if cid in stored else "missing"),
        "chunk-cpp": (chunk_cpp, d[reg].copy() if cid in stored else "missing"),
        "raw": (lambda h: bool(len(h.cpp.read_raw(list(cid)))), cid in stored),
        "unique": (lambda h: sorted(fn("unique", s.dtype)(h.cpp, h.nt)), u),
        "counts": (lambda h: sum(x for _, x in (lambda y: y.items() if isinstance(y, dict) else y)(fn("unique_counts", s.dtype)(h.cpp, h.nt))), len(vals)),
        "exists": (lambda h: sorted(q for q in core.all_chunks(s) if h.cpp.chunk_exists(list(q))), sorted(stored)),
        "attrs": (lambda h: attrs_of(obj(h)), w.attrs[n]),
        "attr": (lambda h: obj(h).attrs.get(sorted(w.attrs[n])[0], "gone"), w.attrs[n][sorted(w.attrs[n])[0]]),
        "attr-in": (lambda h: [k in obj(h).attrs for k in sorted(w.attrs[n]) + ["none"]], [True] * len(w.attrs[n]) + [False]),
        "attr-len": (lambda h: len(obj(h).attrs), len(w.attrs[n])),
        "open": (lambda h: (lambda x: (tuple(x.shape), tuple(x.chunks), str(x.dtype)))(h.f["g/e"]), (tuple(w.e.shape), tuple(w.e.chunks), w.e.dtype)),
        "list": (lambda h: (sorted(h.f.keys()), sorted(h.f["g"].keys()), len(h.f["g"])), (["d", "g"], ["e", "h"], 2)),
        "items": (lambda h: sorted((k, type(v).__name__) for k, v in h.f["g"].items()), [("e", "Dataset"), ("h", "Group")]),
        "contains": (lambda h: [k in h.f for k in ("d", "g/e", "g/h", "nope", "g/nope", "d/nope")], [True, True, True, False, False, False]),
        "open-file": (lambda h: sorted(core.open_file(h.path, s, r.choice(["r", "a", "r+"])).keys()), ["d", "g"]),
        "open-cpp": (lambda h: tuple(__import__("z5vt").open(h.path, "d", r.choice(["r", "a"])).shape), tuple(s.shape)),
        "require": (lambda h: [type(h.f.require_group("g")).__name__, tuple(h.f.require_dataset("d", shape=s.shape, dtype=s.dtype, chunks=s.chunks).shape)], ["Group", tuple(s.shape)]),
    }
    run, val = ops[how]
    return dict(kind="read:" + how, run=run, read=True, value=val)


def op_meta(c, w):
    """creating containers and requiring nodes"""
    import z5py
    r = c.rnd
    how = r.choice(["require-group", "require-ds", "file-a", "file-r+", "new-file", "new-file", "cpp-ds"])
    a = w.clone()
    if how == "new-file":
        mode, ext = r.choice(["w", "w-over", "w-over", "a", "x"]), os.path.splitext(w.base)[1]
        where = lambda h: os.path.splitext(h.path)[0] + "-new" + ext       # the shim watches it: it has the same prefix

        def prep(h):
            shutil.rmtree(where(h), ignore_errors=True)
            h.where = where(h)
            if mode == "w-over":
                shutil.copytree(w.base, h.where)

        return dict(kind="create:file-" + mode, run=lambda h: core.open_file(h.where, w.s, mode[0]), prep=prep, after=a, targets=set(), skip=set(),
                    repeat=False, newfile=mode)
    if how == "cpp-ds":
        import z5vt
        q = core.rand_spec(c, fmt=w.fmt, dtype=r.choice(core.PYTYPES), maxel=60, key="cq")
        q.sep = w.s.sep if w.fmt == "zarr2" else q.sep
        a.nodes["cq"], a.attrs["cq"], a.data["cq"] = "ds", {}, np.full(q.shape, q.fillval(), q.dtype)
        so = w.spec_of
        a.spec_of = lambda k: q if k == "cq" else so(k)
        return dict(kind="create:cpp-ds", run=lambda h: core.create_cpp(h.path, q), after=a, targets=set(), skip=set(), new=["cq"], repeat=False)
    if how == "require-group":
        a.nodes["rg"], a.attrs["rg"] = "grp", {}
        return dict(kind="create:require-group", run=lambda h: h.f.require_group("rg"), after=a, targets=set(), skip=set(), new=["rg"], repeat=True)
    if how == "require-ds":
        dt = r.choice(core.PYTYPES)
        a.nodes["rd"], a.attrs["rd"], a.data["rd"] = "ds", {}, np.zeros((7, 9), dt)
        so = w.spec_of
        a.spec_of = lambda k: core.Spec(chunks=(3, 4)) if k == "rd" else so(k)
        return dict(kind="create:require-ds", run=lambda h: h.f.require_dataset("rd", shape=(7, 9), dtype=dt, chunks=(3, 4), compression="raw"),
                    after=a, targets=set(), skip=set(), new=["rd"], repeat=True)
    # opening an existing container changes nothing; attributes through a new file object
    mode = how.split("-")[1]
    a.attrs[""]["via"] = mode
    return dict(kind="attr:" + how, run=lambda h: core.open_file(h.path, w.s, mode).attrs.__setitem__("via", mode), after=a, targets=set(), skip={"attrs:"}, repeat=True, attr=("", {"via"}))
