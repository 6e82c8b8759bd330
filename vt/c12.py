"""file modes: read-only containers are bit-identical after every call, modes decide about existence and truncation, objects inherit the mode"""
import os, pickle, shutil, copy
import numpy as np
from . import core
from .core import fn, same, sl

MODES = ["r", "r+", "a", "w", "w-", "x"]


def case(c, i):
    if i % 2 == 0:
        return read_only(c, i // 2)
    return opening(c, i // 2)


class Box:
    """a container with nested groups, datasets with data, attributes"""

    def __init__(self, c, fmt, name="m", ext=True, fill=True):
        r = c.rnd
        self.fmt, self.c = fmt, c
        self.path = os.path.join(c.dir, name + ((".n5" if fmt == "n5" else ".zarr") if ext else ""))
        self.sep = r.choice("./") if fmt == "zarr2" else "."
        f = core.open_file(self.path, core.Spec(fmt=fmt, sep=self.sep), "a")
        self.specs, self.data = {}, {}
        self.groups = ["g", "g/h", "empty"]
        if not fill:
            self.groups = []
            return
        for g in self.groups:
            f.create_group(g)
        for k in ("d", "g/e", "g/h/i"):
            s = core.rand_spec(c, fmt=fmt, maxel=150, key=k)
            if fmt == "zarr2":
                s.sep = self.sep
            d = core.create_py(f, s)
            x = np.full(s.shape, s.fillval(), s.dtype)
            for _ in range(r.randint(0, 3)):
                lo, hi = core.rand_roi(c, s.shape, s)
                v = core.rand_data(c, [q - p for p, q in zip(lo, hi)], s.dtype, "full")
                d[sl(lo, hi)] = v
                x[sl(lo, hi)] = v
            self.specs[k], self.data[k] = s, x
        self.attrs = {}
        for n in [""] + self.groups + list(self.specs):
            a = (f if n == "" else f[n]).attrs
            if r.random() < .7:
                a["k"] = [1, n]
                a["z"] = "text"
            self.attrs[n] = dict(a.items())

    def open(self, mode):
        return core.open_file(self.path, core.Spec(fmt=self.fmt, sep=self.sep), mode)

    def check(self, f, what):
        """all content can be read through f"""
        c = self.c
        for n in [""] + self.groups + list(self.specs):
            o = f if n == "" else f[n]
            if dict(o.attrs.items()) != self.attrs[n]:
                c.fail("content", "%s: attributes of %r: %s" % (what, n, dict(o.attrs.items())))
            if n in self.specs and not same(o[...], self.data[n]):
                c.fail("content", "%s: data of %r" % (what, n))
        got = set()
        f.visititems(lambda k, o: got.add(k))
        if got != set(self.groups) | set(self.specs):
            c.fail("content", "%s: visits %s" % (what, got))


def derive(c, b, f, n):
    """an object for the node obtained in one of many ways"""
    r = c.rnd
    import z5py
    how = r.randrange(8)
    if n == "":
        o = f
        if how == 1:
            o = f["g"].file
        elif how == 2:
            o = f["d"].file
        elif how == 3:
            o = f["d"].parent
        elif how == 4:
            o = pickle.loads(pickle.dumps(f))
        elif how == 5:
            o = copy.copy(f)
    elif how == 0 and "/" in n:
        o = f
        for p in n.split("/"):
            o = o[p]
    elif how == 1:
        o = f["/" + n]
    elif how == 2:
        o = pickle.loads(pickle.dumps(f[n]))
    elif how == 3:
        res = {}
        f.visititems(lambda k, x: res.__setitem__(k, x))
        o = res[n]
    elif how == 4 and n in b.specs:
        s = b.specs[n]
        o = f.require_dataset(n, shape=s.shape, dtype=s.dtype, chunks=s.chunks)
    elif how == 5 and n not in b.specs:
        o = f.require_group(n)
    elif how == 6 and n in b.specs and "/" in n:
        o = f[n.rsplit("/", 1)[0]]
        o = o[n.rsplit("/", 1)[1]]
    elif how == 7 and n in ("g", "g/h", "g/e"):
        o = f["g/h/i" if n == "g/h" else "g/h"] if n != "g/e" else f["g/e"]
        o = {"g": lambda: f["g"]["h"].parent, "g/h": lambda: f["g"]["h"]["i"].parent, "g/e": lambda: o}[n]()
    else:
        o = f[n]
    c.ev("derived_%d" % how)
    return o


def mutators(c, b, f, n, o):
    """-> [(name, call)] that change the container"""
    import z5py, z5vt
    from z5py import _z5py
    r = c.rnd
    m = []
    add = lambda k, q: m.append((k, q))
    at = o.attrs
    add("attr-set", lambda: at.__setitem__("new", [1, 2]))
    add("attr-set-old", lambda: at.__setitem__("k", "other"))
    add("attr-update", lambda: at.update({"k": 5, "new": 1}))
    add("attr-setdefault", lambda: at.setdefault("new", 5))
    add("attr-raw", lambda: _z5py.write_attributes(o._handle, '{"new": 7}'))
    ks = [k for k in b.attrs[n] if k != "n5"]
    if ks:
        add("attr-del", lambda: at.__delitem__(r.choice(ks)))
        add("attr-pop", lambda: at.pop(r.choice(ks)))
        if n or b.fmt != "n5":
            add("attr-popitem", lambda: at.popitem())
            add("attr-clear", lambda: at.clear())
        add("attr-raw-del", lambda: _z5py.remove_attribute(o._handle, r.choice(ks)))
    if n in b.specs:
        s = b.specs[n]
        lo, hi = core.rand_roi(c, s.shape, s)
        x = core.rand_data(c, [q - p for p, q in zip(lo, hi)], s.dtype, "full")
        cid = r.choice(core.all_chunks(s))
        reg = tuple(slice(a * k, min(a * k + k, t)) for a, k, t in zip(cid, s.chunks, s.shape))
        ch = core.rand_data(c, s.chunks if s.zarr else [q.stop - q.start for q in reg], s.dtype, "full")
        o.n_threads = r.choice([1, 3])
        add("setitem", lambda: o.__setitem__(sl(lo, hi), x))
        add("setitem-scalar", lambda: o.__setitem__(sl(lo, hi), x.ravel()[0]))
        add("setitem-fill", lambda: o.__setitem__(Ellipsis, s.fillval()))
        add("subarray", lambda: o.write_subarray(lo, x))
        add("direct", lambda: o.write_direct(x, tuple(slice(0, q) for q in x.shape), sl(lo, hi)))
        add("chunk", lambda: o.write_chunk(cid, ch))
        add("chunk-fill", lambda: o.write_chunk(cid, np.full(ch.shape, s.fillval(), s.dtype)))
        if b.fmt == "n5":
            add("varlen", lambda: o.write_chunk(cid, core.rand_data(c, (7,), s.dtype, "full"), True))
        add("remove-dataset", lambda: _z5py.remove_dataset(o._impl, r.choice([1, 3])))
        return m
    new = r.choice(["new", "new/er", "g2", "dd", "/lead"])
    add("create_group", lambda: o.create_group(new))
    add("create_group-old", lambda: o.create_group(r.choice(list(o.keys()) if hasattr(o, "keys") and len(o) else ["new"])))
    add("require_group", lambda: o.require_group(new))
    add("create_dataset", lambda: o.create_dataset(new, shape=(4, 5), chunks=(2, 2), dtype="int32"))
    add("create_dataset-data", lambda: o.create_dataset(new, data=np.arange(20).reshape(4, 5), chunks=(2, 2)))
    add("require_dataset", lambda: o.require_dataset(new, shape=(4, 5), chunks=(2, 2), dtype="int32"))
    if len(o):
        k = r.choice(list(o))
        add("del", lambda: o.__delitem__(k))
        add("create_dataset-old", lambda: o.create_dataset(k, shape=(4, 5), chunks=(2, 2), dtype="int32"))
    add("raw-group", lambda: _z5py.create_group(o._handle, "new", 3 if b.fmt == "zarr3" else 2))
    add("raw-dataset", lambda: _z5py.create_dataset(o._handle, "new", "int32", [4, 5], [2, 2], "raw", "{}", 0., ".", 3 if b.fmt == "zarr3" else 2, [], "default"))
    if n == "":
        add("raw-file", lambda: _z5py.create_file(o._handle, b.fmt != "n5", 3 if b.fmt == "zarr3" else 2))
    add("raw-remove", lambda: o._handle.remove())
    return m


def cpp_mutators(c, b, n, mode):
    import z5vt
    r = c.rnd
    s = b.specs[n]
    d = z5vt.open(b.path, n, mode)
    lo, hi = core.rand_roi(c, s.shape, s)
    x = core.rand_data(c, [q - p for p, q in zip(lo, hi)], s.dtype, "full")
    cid = r.choice(core.all_chunks(s))
    full = core.rand_data(c, s.chunks if s.zarr else [min(k, t - a * k) for a, k, t in zip(cid, s.chunks, s.shape)], s.dtype, "full")
    nt = r.choice([1, 3])
    return [("cpp-view", lambda: fn("write_view", s.dtype)(d, x, list(lo), nt)),
            ("cpp-scalar", lambda: fn("write_scalar", s.dtype)(d, x.ravel()[:1].copy(), list(lo), [q - p for p, q in zip(lo, hi)], nt)),
            ("cpp-chunk", lambda: fn("write_chunk", s.dtype)(d, full, list(cid), False, 0)),
            ("cpp-remove-chunk", lambda: d.remove_chunk(list(cid))), ("cpp-remove", lambda: d.remove()), ("cpp-remove-dataset", lambda: z5vt.remove_dataset(d, nt)),
            ("cpp-trivial", lambda: fn("remove_trivial", s.dtype)(d, nt, False, np.zeros(1, s.dtype)) if not s.dtype.startswith("complex") else None),
            ("cpp-create", lambda: z5vt.create(b.path, "new", "uint8", [4], [2], "raw", "{}", 0., ".", 3 if b.fmt == "zarr3" else 2, "default", [], mode)),
            ("cpp-create-old", lambda: z5vt.create(b.path, n, "uint8", [4], [2], "raw", "{}", 0., ".", 3 if b.fmt == "zarr3" else 2, "default", [], mode))]


def unchanged(c, b, snap, key, what):
    d = core.snap_diff(snap, core.snapshot(b.path))
    if d:
        c.fail("modified:" + key, "%s changed %s" % (what, d[:6]))


def read_only(c, i):
    r = c.rnd
    fmt = core.FORMATS[i % 3]
    b = Box(c, fmt)
    c.sig, c.nontrivial = core.digest("r", fmt, i), True
    c.sample = "%s read-only, %s" % (fmt, {k: s.desc() for k, s in b.specs.items()})
    snap = core.snapshot(b.path)
    f = b.open("r")
    unchanged(c, b, snap, "open", "opening in mode r")
    nodes = [""] + b.groups + list(b.specs)
    rw = b.open("a") if r.random() < .5 else None       # another, writable handle does not lend its mode
    for n in nodes:
        o = derive(c, b, f, n)
        ms = mutators(c, b, f, n, o)
        if n in b.specs:
            ms += cpp_mutators(c, b, n, "r")
        for name, call in ms:
            c.note(n, name)
            c.ev("read_only_calls")
            c.ev("ro_" + name)
            e = core.raises(call)
            d = core.snap_diff(snap, core.snapshot(b.path))
            if d:
                c.fail("modified:" + name, "%s of %r (%s) in mode r changed %s (%s)" % (name, n, fmt, d[:6], "raised %r" % e if e else "did not raise"))
            if e is None and name != "cpp-trivial":
                c.fail("no-raise:" + name, "%s of %r (%s) in mode r did not raise" % (name, n, fmt))
        # queries do not change anything either
        if n in b.specs:
            s = b.specs[n]
            for cid in core.all_chunks(s)[:4]:
                o.read_chunk(cid), o.chunk_exists(cid)
            lo, hi = core.rand_roi(c, s.shape, s)
            o[sl(lo, hi)], o.compression_opts, str(o)
        else:
            list(o), len(o), "nope" in o, list(o.keys()), list(o.attrs), o.attrs.get("nope")
            core.raises(lambda: o["nope"])
            core.raises(lambda: o["d/nope"])
    b.check(f, "mode r")
    unchanged(c, b, snap, "reads", "reading in mode r")
    # the calls of this case do change a container that was opened for writing
    for n in r.sample(nodes, 3):
        f = b.open(r.choice(["a", "r+"]))
        o = derive(c, b, f, n)
        name, call = r.choice(mutators(c, b, f, n, o))
        if name in ("raw-file", "create_group-old", "create_dataset-old", "raw-remove", "del", "remove-dataset", "create_dataset", "create_dataset-data", "require_group", "require_dataset", "raw-group", "raw-dataset", "create_group"):
            continue
        e = core.raises(call)
        c.ev("writable_calls")
        if e is not None:
            c.fail("writable:" + name, "%s of %r (%s) in a writable mode raised %r" % (name, n, fmt, e))


# ---------------------------------------------------------------------------------------------

MARKERS = {"zarr2": ".zgroup", "zarr3": "zarr.json", "n5": "attributes.json"}
STATES = ["missing", "missing", "full", "full", "empty-container", "empty-dir", "other"]


def fresh_snapshot(c, fmt, ext, tag):
    p = os.path.join(c.dir, "fresh" + tag + ((".n5" if fmt == "n5" else ".zarr") if ext else ""))
    core.open_file(p, fmt, "w-") if ext else ctor(p, fmt, "w-", False)()
    return core.snapshot(p)


def ctor(path, fmt, mode, infer, r=None):
    """-> call that opens the file in one of the spellings"""
    import z5py
    kw = {} if fmt == "n5" else {"zarr_format": 3 if fmt == "zarr3" else 2}
    ext = os.path.splitext(path)[1]

    def q():
        k = r.randrange(4) if r else 0
        p = path
        if k == 1:
            import pathlib
            p = pathlib.Path(path)
        if k == 2 and fmt == "n5" and ext:
            return z5py.N5File(path, mode)
        if k == 2 and fmt != "n5" and ext:
            return z5py.ZarrFile(path, mode, **kw)
        if ext and k == 3:
            return z5py.File(p, mode, **kw)
        if fmt != "n5" and mode in ("r", "r+", "a") and k != 0 and os.path.isdir(path) and (
                not ext or fmt == "zarr3") and os.path.exists(os.path.join(path, MARKERS[fmt])):
            return z5py.File(p, mode)       # the markers tell the format
        if not ext:
            return z5py.File(p, mode=mode, **kw)
        return z5py.File(p, mode=mode, use_zarr_format=fmt != "n5", **kw)
    return q


def opening(c, i):
    import z5py
    r = c.rnd
    fmt = core.FORMATS[i % 3]
    mode = MODES[i // 3 % 6]
    state = STATES[i // 18 % len(STATES)]
    ext = state == "missing" and fmt == "n5" or state in ("empty-dir", "other") or r.random() < .7
    if state == "missing" and fmt != "n5":
        ext = True          # without extension and markers a container is n5
    if state == "full" and not ext or state == "empty-container" and not ext:
        ext = fmt == "n5" and False or r.random() < .5
    c.sig, c.nontrivial = core.digest("o", fmt, mode, state, ext, i), True
    c.sample = "opening %s in mode %s, %s%s" % (fmt, mode, state, "" if ext else ", no extension")
    tag = (".n5" if fmt == "n5" else ".zarr") if ext else ""
    inner = os.path.join(c.dir, "in")
    os.mkdir(inner)
    path = os.path.join(inner, "m" + tag)
    sib = os.path.join(inner, "m" + tag + "x")      # a neighbour that must survive
    os.mkdir(sib)
    with open(os.path.join(sib, "keep"), "w") as h:
        h.write("keep")
    b = None
    if state in ("full", "empty-container"):
        b = Box(c, fmt, "tmp", True, state == "full")
        shutil.move(b.path, path)
        b.path = path
    elif state == "empty-dir":
        os.mkdir(path)
    elif state == "other":      # a directory with files of something else (but of this name)
        os.makedirs(os.path.join(path, "sub"))
        with open(os.path.join(path, "sub", "file"), "w") as h:
            h.write("x")
    whole = core.snapshot(inner)
    exists = state != "missing"
    if r.random() < .15:
        bad = r.choice(["", "rw", "R", "wr", "w+", "a+", "rb", None, 5, "r ", "append"])
        e = core.raises(ctor(path, fmt, bad, False, r))
        c.ev("bad_modes")
        d = core.snap_diff(whole, core.snapshot(inner))
        if e is None or d:
            c.fail("bad-mode", "%s: mode %r: %r, changed %s" % (c.sample, bad, e, d))
    q = ctor(path, fmt, mode, False, r)
    box = []
    e = core.raises(lambda: box.append(q()))
    now = core.snapshot(inner)
    d = core.snap_diff(whole, now)
    c.ev("openings")
    c.ev("open_%s_%s" % (mode, state))
    must_fail = (not exists and mode in ("r", "r+")) or (exists and mode in ("w-", "x"))
    if must_fail:
        if not isinstance(e, OSError):
            c.fail("opened:%s:%s" % (mode, state), "%s: %r" % (c.sample, e))
        if d:
            c.fail("open-modified:%s:%s" % (mode, state), "%s raised %r and changed %s" % (c.sample, e, d))
        return
    if state in ("empty-dir", "other") and mode in ("r", "r+", "a"):
        if e is not None or mode == "r":
            if d:
                c.fail("open-modified:%s:%s" % (mode, state), "%s: %r, changed %s" % (c.sample, e, d))
        gone = [k for k in d if not k.startswith("+")]
        if gone:
            c.fail("open-modified:%s:%s" % (mode, state), "%s: %r, changed %s" % (c.sample, e, d))
        return
    if e is not None:
        c.fail("not-opened:%s:%s" % (mode, state), "%s raised %r" % (c.sample, e))
    f = box[0]
    if exists and mode in ("r", "r+", "a") and d:
        c.fail("open-modified:%s:%s" % (mode, state), "%s changed %s" % (c.sample, d))
    if not exists or mode == "w":
        exp = fresh_snapshot(c, fmt, ext or fmt != "n5", tag)
        got = core.snapshot(path)
        if exp != got:
            c.fail("not-empty:%s:%s" % (mode, state), "%s: the container has %s" % (c.sample, core.snap_diff(exp, got)))
        if len(f) or list(f):
            c.fail("not-empty:%s:%s" % (mode, state), "%s: lists %s" % (c.sample, list(f)))
    rest = {k: v for k, v in core.snapshot(inner).items() if not k.startswith("m" + tag + "/")}
    if rest != {k: v for k, v in whole.items() if not k.startswith("m" + tag + "/")}:
        c.fail("neighbour", "%s changed something outside of the container" % c.sample)
    if b and mode in ("r", "r+", "a"):
        if state == "full":
            b.check(f, c.sample)
    elif state == "full":
        b.groups, b.specs, b.data, b.attrs = [], {}, {}, {"": dict(f.attrs.items())}
    # objects inherit the mode; pickling neither truncates nor changes it
    fs = [f, pickle.loads(pickle.dumps(f)), pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(f))))]
    if f.filename != path:
        c.fail("filename", "%s: %r" % (c.sample, f.filename))
    names = []
    for k, ff in enumerate(fs):
        snap = core.snapshot(path)
        g = "new%d" % k
        calls = [("group", lambda: ff.create_group(g)), ("nested group", lambda: ff.create_group(g + "/x/y")), ("dataset", lambda: ff.create_dataset(g + "/ds", data=np.arange(6), chunks=(4,))),
                 ("attribute", lambda: ff.attrs.__setitem__(g, 1)), ("dataset attribute", lambda: ff[g + "/ds"].attrs.__setitem__("u", 1)),
                 ("data", lambda: ff[g]["ds"].__setitem__(slice(0, 3), 9)), ("pickled dataset", lambda: pickle.loads(pickle.dumps(ff[g]["ds"])).__setitem__(slice(3, 6), 8)),
                 ("pickled group", lambda: pickle.loads(pickle.dumps(ff[g])).create_group("pg")), ("delete", lambda: ff[g].__delitem__("x"))]
        for name, call in calls:
            e = core.raises(call)
            c.ev("inherited_calls")
            if mode == "r":
                if e is None:
                    c.fail("inherit:" + name, "%s: %s through a file in mode r did not raise (%d)" % (c.sample, name, k))
            elif e is not None:
                c.fail("inherit:" + name, "%s: %s raised %r (%d)" % (c.sample, name, e, k))
        if mode == "r":
            unchanged(c, type("P", (), {"path": path}), snap, "inherit", c.sample)
        else:
            ds = ff[g]["ds"]
            for d, m in ((g, MARKERS[fmt]), (g + "/pg", MARKERS[fmt]), (g + "/ds", {"zarr2": ".zarray"}.get(fmt, MARKERS[fmt]))):
                if fmt != "n5" and not os.path.exists(os.path.join(path, d, m)) or fmt == "n5" and any(
                        os.path.exists(os.path.join(path, d, x)) for x in (".zgroup", ".zarray", "zarr.json")):
                    c.fail("inherit-format", "%s: %s has %s (%d)" % (c.sample, d, os.listdir(os.path.join(path, d)), k))
            if ds[:].tolist() != [9, 9, 9, 8, 8, 8] or sorted(ff[g]) != ["ds", "pg"] or ds.attrs["u"] != 1 or ff.attrs[g] != 1:
                c.fail("inherit-lost", "%s: what was written is not there (%d): %s %s" % (c.sample, k, ds[:], sorted(ff[g])))
            names.append(g)
    # reopening in other modes keeps everything
    if mode != "r":
        snap = core.snapshot(path)
        for m2 in r.sample(["r", "r+", "a", "w-", "x"], 3):
            q2 = ctor(path, fmt, m2, False, r)
            res = []
            e = core.raises(lambda: res.append(q2()))
            if (m2 in ("w-", "x")) != (e is not None):
                c.fail("reopen:" + m2, "%s, then mode %s: %r" % (c.sample, m2, e))
            dd = core.snap_diff(snap, core.snapshot(path))
            if dd:
                c.fail("reopen-modified:" + m2, "%s, then mode %s changed %s" % (c.sample, m2, dd))
            if res and not set(names) <= set(res[0]):
                c.fail("reopen-lost:" + m2, "%s: %s" % (c.sample, list(res[0])))
        if b and b.specs:
            b.attrs[""] = dict(f.attrs.items())
            b.groups = [x for x in b.groups]
            fr = ctor(path, fmt, "r", False)()
            for n, s in b.specs.items():
                if not same(fr[n][...], b.data[n]):
                    c.fail("kept", "%s: data of %s" % (c.sample, n))
