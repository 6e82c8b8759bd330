"""utilities: unique / counts / removeTrivialChunks / dataset removal / iteration against an independent decoder"""
import collections, os, struct
import numpy as np
from . import core, decode, encode, c03
from .core import fn, same, first_diff
from .session import Session


def num(v):
    """hashable python value of one element (-0.0 == 0.0)"""
    return v.item()


class T:
    """one dataset under test: the content of its stored chunks as decoded by independent code"""

    def __init__(self, c, s, path):
        self.c, self.s, self.path = c, s, path
        self.d = os.path.join(path, s.key)
        self.varlen = {}

    def meta(self):
        return c03.decode_meta_soft(self.path, self.s)

    def elements(self):
        """{stored chunk id: (elements inside of the dataset, encoded bytes)}"""
        s, m, out = self.s, self.meta(), {}
        for cid, b in decode.stored(m).items():
            shp = tuple(min(ch, n - i * ch) for i, ch, n in zip(cid, s.chunks, s.shape))
            ins = tuple(slice(0, n) for n in shp)
            if s.fmt != "n5":
                e = decode.decode_zarr_chunk(m, b)[ins]
            else:
                nd = s.ndim
                mode, = struct.unpack(">H", b[:2])
                st = tuple(reversed(struct.unpack(">%dI" % nd, b[4:4 + 4 * nd])))
                n = int(np.prod(st))
                off = 4 + 4 * nd
                if mode == 1:
                    n, = struct.unpack(">I", b[off:off + 4])
                    off += 4
                e = np.frombuffer(decode.decode(getattr(m, 'stream', m.codec), b[off:], n * m.dt.itemsize), m.dt.newbyteorder(">")).astype(m.dt)
                if mode == 0:
                    e = e.reshape(st)[ins]
            out[cid] = (e.ravel(), b)
        return out


def fill_chunks(c, t, cpp):
    """write the chunks one by one with content that is trivial, nearly trivial or not"""
    r, s = c.rnd, t.s
    base = core.rand_data(c, (4,), s.dtype, "full")
    if r.random() < .3:
        base[r.randrange(4)] = s.fillval()
    density = r.choice([.3, .8, 1.0])
    for cid in core.all_chunks(s):
        if r.random() > density:
            continue
        reg = core.chunk_region(s, cid)
        shp = [q.stop - q.start for q in reg]
        n = int(np.prod(shp))
        k = r.random()
        if s.fmt == "n5" and k < .12:
            ln = r.choice([1, 2, 3, n, n + 1, 3 * n + 2])
            x = np.full(ln, base[r.randrange(4)], s.dtype)
            if r.random() < .5 and ln > 1:
                x[-1] = base[r.randrange(4)]
            fn("write_chunk", s.dtype)(cpp, x, list(cid), True, ln)
            c.ev("varlen_chunks")
            continue
        if k < .45:
            x = np.full(shp, base[r.randrange(4)], s.dtype)
        elif k < .75:
            x = np.full(n, base[0], s.dtype)
            for p in r.choice([[0], [n - 1], [n // 2], [0, n - 1], [r.randrange(n)]]):
                x[p] = base[1 + r.randrange(3)]
            x = x.reshape(shp)
        else:
            x = core.rand_data(c, shp, s.dtype, r.choice(["full", "small", "ramp"]))
        fn("write_view", s.dtype)(cpp, np.ascontiguousarray(x), [q.start for q in reg], 1)


def case(c, i):
    r = c.rnd
    if i % 97 == 41:
        return nan_probe(c)
    if i % 6 == 4:
        return removal(c, i)
    combos = [(f, co, d) for f in core.FORMATS for co in core.COMP[f] for d in core.PYTYPES]
    f, co, d = combos[i * 61 % len(combos)]
    s = core.rand_spec(c, fmt=f, comp=co, dtype=d, cpp=True, maxel=r.choice([40, 300, 1500]), sharded=(r.random() < .4) if f == "zarr3" else None)
    if s.fmt != "n5" and isinstance(s.fill, float) and s.fill != s.fill:
        s.fill = 0.0
    import z5vt
    path = os.path.join(c.dir, "u" + s.file_ext())
    t = T(c, s, path)
    foreign = r.random() < .35
    c.sig, c.sample = core.digest(s.desc(), i), "unique " + s.desc()
    c.nontrivial = int(np.prod(s.grid)) > 1
    if foreign:
        s.opts = {}
        s.full_edges = s.fmt == "n5" and r.random() < .6
        s.pad_garbage = s.fmt != "n5" and r.random() < .8
        encode.write(c, path, s)
        c.ev("foreign_datasets")
    else:
        core.open_file(path, s)
        core.create_cpp(path, s)
        fill_chunks(c, t, z5vt.open(path, s.key))
    el = t.elements()
    if np.dtype(s.dtype).kind == "f" and any(np.isnan(e).any() for e, _ in el.values()):
        c.ev("skipped_nan_unique")      # see the known finding
    else:
        check_unique(c, t, el)
    check_trivial(c, t, el)


def check_unique(c, t, el):
    import z5vt
    s, r = t.s, c.rnd
    cnt = collections.Counter()
    for e, _ in el.values():
        cnt.update(num(x) for x in e)
    before = core.snapshot(t.path)
    ds = z5vt.open(t.path, s.key, r.choice(["r", "a"]))
    for nt in (1, r.choice([2, 3]), r.choice([4, 8, 16])):
        u = fn("unique", s.dtype)(ds, nt)
        u = [x.item() if hasattr(x, "item") else x for x in u]
        c.ev("unique_calls")
        if len(u) != len(set(u)) or set(u) != set(cnt):
            c.fail("unique-values", "nt=%d: extra %s missing %s (%s)" % (nt, sorted(set(u) - set(cnt))[:5], sorted(set(cnt) - set(u))[:5], s.desc()))
        uc = dict(fn("unique_counts", s.dtype)(ds, nt))
        if uc != dict(cnt):
            bad = [(k, uc.get(k), cnt.get(k)) for k in sorted(set(uc) | set(cnt)) if uc.get(k) != cnt.get(k)]
            c.fail("unique-counts", "nt=%d: (value, got, expected) %s (%s)" % (nt, bad[:5], s.desc()))
        c.ev("values_counted", sum(cnt.values()))
    if core.snap_diff(before, core.snapshot(t.path)):
        c.fail("unique-changed-files", s.desc())


def trivial_of(e, spec, val):
    if not len(e):
        return None
    first = e[0]
    one = bool(np.isnan(e).all()) if e.dtype.kind == "f" and first != first else bool((e == first).all())
    if not one:
        return False
    return True if not spec else bool(first == val)


def check_trivial(c, t, el):
    import z5vt
    s, r = t.s, c.rnd
    dt = np.dtype(s.dtype)
    for rnd_ in range(2):
        spec = r.random() < .6 if rnd_ == 0 else r.random() < .3
        vals = [e[0] for e, _ in el.values() if len(e) and e[0] == e[0]]
        val = r.choice(vals) if vals and r.random() < .85 else dt.type(7)
        expect = {cid for cid, (e, _) in el.items() if trivial_of(e, spec, val) is False}
        ds = z5vt.open(t.path, s.key, "a")
        nt = r.choice([1, 2, 4, 8])
        other = core.snapshot(t.path)
        fn("remove_trivial", s.dtype)(ds, nt, spec, core.scalar_arr(val, s.dtype))
        c.ev("trivial_runs")
        if t.meta() is None:
            c.fail("trivial:metadata", s.desc())
        try:
            now = t.elements()
        except Exception as e:
            c.fail("trivial:undecodable", "nt=%d %r %s" % (nt, e, s.desc()))
        if set(now) != expect:
            c.fail("trivial:removed-set", "nt=%d spec=%s val=%r: wrongly kept %s wrongly removed %s (%s)" % (
                nt, spec, val, sorted(set(now) - expect)[:4], sorted(expect - set(now))[:4], s.desc()))
        for cid in expect:
            if now[cid][1] != el[cid][1]:
                c.fail("trivial:changed-chunk", "%s %s" % (cid, s.desc()))
        c.ev("chunks_removed", len(el) - len(now))
        c.ev("chunks_kept", len(now))
        for k, v in core.snapshot(t.path).items():       # metadata and attributes
            if os.path.basename(k) in ("attributes.json", ".zarray", ".zattrs", "zarr.json", ".zgroup") and other.get(k) != v:
                c.fail("trivial:metadata", k)
        for cid in core.all_chunks(s):
            if ds.chunk_exists(list(cid)) != (cid in expect):
                c.fail("trivial:exists", "%s %s" % (cid, s.desc()))
        el = now
    # the others stay readable
    if any(struct.unpack(">H", b[:2])[0] for _, b in el.values()) if s.fmt == "n5" else False:
        return
    if getattr(s, "full_edges", False) or getattr(s, "pad_garbage", False):
        pad = False
    else:
        pad = True
    exp = np.full(s.shape, s.fillval(), s.dtype)
    for cid, (e, _) in el.items():
        reg = core.chunk_region(s, cid)
        exp[reg] = e.reshape([q.stop - q.start for q in reg])
    got = np.empty(s.shape, s.dtype)
    fn("read_view", s.dtype)(z5vt.open(t.path, s.key, "r"), got, [0] * s.ndim, r.choice([1, 4]))
    if not same(got, exp):
        c.fail("trivial:read", "%s: %s" % (s.desc(), first_diff(got, exp)))


def nan_probe(c):
    """known finding: sets and maps of floats with NaN use the default order"""
    import z5vt
    c.sig, c.sample = "nan-probe", "float data with nan"
    path = os.path.join(c.dir, "n.n5")
    core.open_file(path, "n5")
    s = core.Spec(fmt="n5", dtype="float64", shape=(10,), chunks=(10,), fill=0.0)
    core.create_cpp(path, s)
    x = np.arange(10.0)
    x[0] = np.nan
    ds = z5vt.open(path, "d")
    fn("write_view", "float64")(ds, x, [0], 1)
    u = fn("unique", "float64")(ds, 1)
    n = dict(fn("unique_counts", "float64")(ds, 1))
    if len(u) != 10 or len(n) != 10:
        c.fail("nan-unique:float64", "unique([nan,1..9]) = %s, counts %s" % (u, n))


def removal(c, i):
    """removing a dataset deletes all of it and nothing else"""
    import z5vt, z5py
    r = c.rnd
    f = core.FORMATS[i // 6 % 3]
    path = os.path.join(c.dir, "r" + (".n5" if f == "n5" else ".zarr"))
    names = ["d", "d1", "dd", "g/d", "g/d1", "g/h/d", "0", "g/0/d"]
    r.shuffle(names)
    fl = None
    made = []
    for k, name in enumerate(names[:r.randint(3, 8)]):
        s = core.rand_spec(c, fmt=f, dtype=r.choice(core.PYTYPES), maxel=200, key=name, fill=False)
        s.sep = "."
        fl = fl or core.open_file(path, s)
        fl.create_dataset(name, shape=s.shape, dtype=s.dtype, chunks=[min(a, b) for a, b in zip(s.chunks, s.shape)])
        ds = fl[name]
        if r.random() < .8:
            lo, hi = core.rand_roi(c, s.shape)
            ds[core.sl(lo, hi)] = core.rand_data(c, [b - a for a, b in zip(lo, hi)], s.dtype)
        if r.random() < .5:
            ds.attrs["k"] = [1, {"a": name}]
        made.append(name)
    fl.attrs["root"] = 1
    if "g" in fl:
        fl["g"].attrs["x"] = "y"
    outside = os.path.join(c.dir, "d")
    os.makedirs(outside)
    open(os.path.join(outside, "0"), "w").write("keep")
    c.sig, c.sample = core.digest(i, made, f), "remove %s of %s" % (made, f)
    r.shuffle(made)
    while made:
        name = made.pop()
        before = core.snapshot(c.dir)
        rel = os.path.relpath(path, c.dir)
        pre = rel + "/" + name
        how = r.choice(["del", "del-group", "util", "remove"])
        if how == "del":
            fl = core.open_file(path, f, "a")
            del fl[name]
        elif how == "del-group" and "/" in name:
            g, k = name.rsplit("/", 1)
            del core.open_file(path, f, "r+")[g][k]
        elif how == "util":
            z5vt.remove_dataset(z5vt.open(path, name, "a"), r.choice([1, 2, 4, 8]))
        else:
            z5vt.open(path, name, "a").remove()
        after = core.snapshot(c.dir)
        c.ev("removals")
        left = [k for k in after if k == pre + "/" or k.startswith(pre + "/")]
        if left:
            c.fail("remove:left", "%s of %s left %s" % (how, name, left[:5]))
        gone = [k for k in before if not (k == pre + "/" or k.startswith(pre + "/")) and after.get(k, 0) != before[k]]
        new = [k for k in after if k not in before]
        if gone or new:
            c.fail("remove:other", "%s of %s changed %s %s" % (how, name, gone[:5], new[:5]))
        fl = core.open_file(path, f, "r")
        if name in fl:
            c.fail("remove:contains", name)
        for o in made:
            if o not in fl or not isinstance(fl[o], z5py.Dataset):
                c.fail("remove:lost", "%s lost by removing %s" % (o, name))
