"""attributes behave as a persistent dictionary of JSON values, next to a model; metadata and data are untouched"""
import json, os, struct, threading
import numpy as np
from . import core, encode
from .core import same

RESERVED = ["dimensions", "blockSize", "dataType", "compression", "compressionType"]
KEYS = ["a", "b", "key", "shape", "zarr_format", "chunks", "attributes", "node_type", "n5x", "with space", "a/b", "a.b", "\u00fcmlaut", "\u65e5\u672c", "\U0001f600", "",
        "null", "0", "quote\"d", "back\\slash", "tab\tnl\n", "nul\0x", "Dimensions", "dimension", "downsamplingFactors", "units", "x" * 300, "_ARRAY_DIMENSIONS"]


def case(c, i):
    if i % 10 == 9:
        return threads(c, i)
    return history(c, i)


def value(r, depth=0):
    k = r.randrange(13 if depth < 4 else 10)
    if k == 0:
        return None
    if k == 1:
        return r.choice([True, False])
    if k in (2, 3):
        return r.choice([0, 1, -1, 42, 2 ** 31, -2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, r.randint(-10 ** 6, 10 ** 6)])
    if k in (4, 5, 6):
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 1e22, 123456789.125, r.random(), r.gauss(0, 1e6), float(r.randint(-5, 5)),
                         struct.unpack("<d", struct.pack("<Q", r.getrandbits(62)))[0]])
    if k in (7, 8, 9):
        return r.choice(["", "a", "text", "\u00fc\u65e5\U0001f600", "nul\0x", "\n\t\"\\/", "\u2028\u007f\u0080", "NaN", "null", "{}", "[1]", "x" * r.choice([10, 5000] if r.random() < .9 else [4095, 4096, 8192, 65536, 200001]), "%s" * 5])
    if k in (10, 11):
        return [value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3, 8]))]
    return {r.choice(KEYS): value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 4]))}


def eq(a, b):
    """equal with the same types, bit for bit"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return struct.pack("<d", a) == struct.pack("<d", b)
    return a == b


class Enc(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, np.generic):
            return {"__np__": [o.dtype.str, o.item()]}
        if isinstance(o, (set, frozenset)):
            return {"__set__": sorted(o)}
        if isinstance(o, complex):
            return {"__c__": [o.real, o.imag]}
        return super().default(o)


class Dec(json.JSONDecoder):
    def __init__(self, *a, **k):
        super().__init__(*a, object_hook=self.hook, **k)

    @staticmethod
    def hook(d):
        if set(d) == {"__np__"}:
            return np.dtype(d["__np__"][0]).type(d["__np__"][1])
        if set(d) == {"__set__"}:
            return set(d["__set__"])
        if set(d) == {"__c__"}:
            return complex(*d["__c__"])
        return d


def custom(r):
    return r.choice([np.float32(r.choice([.5, -2.25])), np.int16(r.randint(-9, 9)), {1, 5, 9}, set(), 1 + 2j, [{2}, {"x": np.uint8(3)}]])


class World:
    """a container with root, groups and datasets and a model of the attributes of each"""

    def __init__(self, c, fmt):
        import z5py
        r = c.rnd
        self.c, self.fmt = c, fmt
        self.path = os.path.join(c.dir, "t" + (".n5" if fmt == "n5" else ".zarr"))
        self.specs, self.data, self.meta0 = {}, {}, {}
        f = self.f = core.open_file(self.path, fmt)
        self.nodes = ["", "g", "g/h", "d", "g/e", "gg"]
        for g in ("g", "g/h", "gg"):
            f.create_group(g)
        for k in ("d", "g/e"):
            s = core.rand_spec(c, fmt=fmt, maxel=60, key=k)
            if fmt == "zarr2":
                s.sep = "."
            d = core.create_py(f, s)
            x = core.rand_data(c, s.shape, s.dtype, "full")
            d[...] = x
            self.specs[k], self.data[k] = s, x
        self.model = {n: {} for n in self.nodes}
        if fmt == "n5":
            with open(os.path.join(self.path, "attributes.json")) as h:
                self.model[""] = json.load(h)
            if set(self.model[""]) != {"n5"}:
                c.fail("root", "a fresh n5 container has the attributes %s" % self.model[""])
        for n in self.nodes:
            if r.random() < .25:
                self.foreign(n)
            self.meta0[n] = self.stored(n)[1]
        self.files = {k: v for k, v in core.snapshot(self.path).items() if not self.is_json(k)}

    def is_json(self, rel):
        return os.path.basename(rel) in ("attributes.json", ".zattrs", "zarr.json")

    def protected(self, n):
        if self.fmt == "n5":
            return RESERVED if n in self.specs else (["n5"] if n == "" else [])
        return []

    def file_of(self, n):
        return os.path.join(self.path, n, {"n5": "attributes.json", "zarr2": ".zattrs", "zarr3": "zarr.json"}[self.fmt])

    def stored(self, n):
        """-> (attributes, metadata) of the files, read without z5"""
        p = self.file_of(n)
        if not os.path.exists(p):
            return {}, None
        with open(p) as h:
            j = json.load(h)
        if self.fmt == "zarr3":
            a = j.pop("attributes", {})
            return a, j
        if self.fmt == "zarr2":
            m = {}
            for k in (".zarray", ".zgroup"):
                q = os.path.join(self.path, n, k)
                if os.path.exists(q):
                    with open(q, "rb") as h:
                        m[k] = h.read()
            return j, m
        if n in self.specs:
            return {k: v for k, v in j.items() if k not in RESERVED}, {k: v for k, v in j.items() if k in RESERVED}
        return j, {}

    def foreign(self, n):
        """attributes as another tool left them"""
        r = self.c.rnd
        a = {r.choice(KEYS): value(r) for _ in range(r.randint(0, 4))}
        p = self.file_of(n)
        j = {}
        if os.path.exists(p):
            with open(p) as h:
                j = json.load(h)
        if self.fmt == "zarr3":
            self.model[n].clear()
            if r.random() < .3:
                j.pop("attributes", None)
                a = {}
            else:
                j["attributes"] = a
        else:
            j.update(a)
        with open(p, "w") as h:
            json.dump(j, h, indent=r.choice([None, 4]), ensure_ascii=r.choice([True, False]))
        self.model[n].update(a)

    def get(self, n, f=None):
        f = f or self.f
        return f.attrs if n == "" else f[n].attrs

    def check(self, n, full=False, f=None):
        c, m = self.c, self.model[n]
        a = self.get(n, f)
        c.ev("checks")
        got = {k: a[k] for k in a}
        if not eq(got, m):
            c.fail("content", "%s %r: attributes are %s, expected %s" % (self.fmt, n, show(got), show(m)))
        st, meta = self.stored(n)
        if not eq(st, m):
            c.fail("stored", "%s %r: stored %s, expected %s" % (self.fmt, n, show(st), show(m)))
        m0 = self.meta0[n]
        if self.fmt == "zarr2":
            if m0 is not None and meta is not None and m0 != meta:
                c.fail("metadata", "%s %r: %s -> %s" % (self.fmt, n, m0, meta))
        elif meta != m0 and not (m0 is None and meta == {}):
            c.fail("metadata", "%s %r: %s -> %s" % (self.fmt, n, m0, meta))
        if full:
            ks = [k for k in m]
            if len(a) != len(m) or sorted(a.keys()) != sorted(ks) or sorted(iter(a)) != sorted(ks) or not eq(dict(a.items()), m) or len(list(a.values())) != len(m):
                c.fail("views", "%s %r: keys/items/len disagree with %s" % (self.fmt, n, show(m)))
            for k in KEYS + self.protected(n):
                if (k in a) != (k in m) or (k in m and not eq(a.get(k), m[k])) or (k not in m and a.get(k, c) is not c):
                    c.fail("lookup", "%s %r: key %r" % (self.fmt, n, k))
                if k not in m and not isinstance(core.raises(lambda: a[k]), KeyError):
                    c.fail("missing", "%s %r: reading the absent key %r gave %r" % (self.fmt, n, k, core.raises(lambda: a[k])))

    def check_rest(self):
        """everything that is not an attribute"""
        c = self.c
        now = {k: v for k, v in core.snapshot(self.path).items() if not self.is_json(k)}
        diff = core.snap_diff(self.files, now)
        if diff:
            c.fail("files", "%s: attribute operations changed %s" % (self.fmt, diff))
        for k, s in self.specs.items():
            d = self.f[k]
            if d.shape != s.shape or d.chunks != s.chunks or d.dtype != np.dtype(s.dtype) or not same(d[...], self.data[k]):
                c.fail("data", "%s %s: %s" % (self.fmt, k, s.desc()))


def show(x):
    t = repr(x)
    return t if len(t) < 600 else t[:600] + "..."


def history(c, i):
    import z5py
    r = c.rnd
    fmt = core.FORMATS[i % 3]
    w = World(c, fmt)
    hooks = i % 7 == 3
    held = {n: w.get(n) for n in w.nodes}
    c.sig = core.digest("h", fmt, i, r.random())
    c.sample = "%s attributes, %s" % (fmt, {k: s.desc() for k, s in w.specs.items()})
    c.nontrivial = True
    for n in w.nodes:
        w.check(n, True)
    focus = r.sample(w.nodes, r.randint(1, 4))
    try:
        if hooks:
            z5py.set_json_encoder(Enc)
            z5py.set_json_decoder(Dec)
        for _ in range(r.randint(5, 40)):
            n = r.choice(focus)
            a = held[n] if r.random() < .5 else w.get(n)
            step(c, w, n, a, hooks)
            if not hooks:
                w.check(r.choice(w.nodes) if r.random() < .3 else n, r.random() < .3)
            else:
                m = w.model[n]
                got = dict(w.get(n).items())
                c.ev("decoded_checks")
                if got != m or any(type(got[k]) is not type(m[k]) for k in m):
                    c.fail("custom", "%s %r: %s, expected %s" % (fmt, n, show(got), show(m)))
            if r.random() < .1:
                w.f = core.open_file(w.path, fmt, r.choice(["a", "r+"]))
                c.ev("reopened")
            if r.random() < .1:
                k = r.choice(list(w.specs))
                s = w.specs[k]
                lo, hi = core.rand_roi(c, s.shape, s)
                x = core.rand_data(c, [q - p for p, q in zip(lo, hi)], s.dtype, "full")
                before = {q: w.stored(q)[0] for q in w.nodes}
                w.f[k][core.sl(lo, hi)] = x
                w.data[k][core.sl(lo, hi)] = x
                if not all(eq(before[q], w.stored(q)[0]) for q in w.nodes):
                    c.fail("data-write", "%s: writing data to %s changed attributes" % (fmt, k))
                w.files = {q: v for q, v in core.snapshot(w.path).items() if not w.is_json(q)}
        w.check_rest()
    finally:
        z5py.set_json_encoder(None)
        z5py.set_json_decoder(None)
    if hooks:
        return
    w.f = core.open_file(w.path, fmt, "r")
    for n in w.nodes:
        w.check(n, True)
    w.check_rest()


def step(c, w, n, a, hooks):
    r = c.rnd
    m = w.model[n]
    prot = w.protected(n)
    val = (lambda: custom(r) if r.random() < .5 else r.choice([1, "x", [1, {"a": 2.5}], None])) if hooks else (lambda: value(r))
    key = lambda: r.choice(KEYS if r.random() < .8 or not m else list(m))
    free = lambda: [k for k in m if k not in prot]
    op = r.choice(["set", "set", "set", "update", "update", "kw", "pairs", "del", "del", "pop", "popdef", "setdefault", "popitem", "clear", "delmissing", "invalid", "reserved", "empty", "foreign", "eq", "same"])
    c.ev("op_" + op)
    c.note(op, n)
    where = "%s %r %s" % (w.fmt, n, op)
    if op == "set":
        k, v = key(), val()
        if k in prot:
            return
        c.note(k, show(v))
        a[k] = v
        m[k] = v
    elif op == "same" and m:
        k = r.choice(list(m))       # another type under the same key
        if k not in prot:
            v = r.choice([1, 1.0, True, "1", [1], {"1": 1}, None])
            a[k] = v
            m[k] = v
    elif op in ("update", "pairs", "kw"):
        u = {k: val() for k in (key() for _ in range(r.choice([0, 1, 2, 5, 12]))) if k not in prot}
        c.note(show(u))
        if op == "update":
            a.update(u)
        elif op == "pairs":
            a.update(list(u.items()))
        else:
            u = {k: v for k, v in u.items() if k.isidentifier()}
            a.update(**u)
        m.update(u)
    elif op == "empty":
        a.update({})
    elif op == "del" and free():
        k = r.choice(free())
        c.note(k)
        del a[k]
        del m[k]
    elif op == "delmissing":
        k = r.choice([k for k in KEYS if k not in m])
        core.raises(lambda: a.__delitem__(k))       # silent or KeyError, but nothing changes
    elif op == "pop" and free():
        k = r.choice(free())
        v = a.pop(k)
        x = m.pop(k)
        if not (v == x if hooks else eq(v, x)):
            c.fail("pop", "%s: %s, expected %s" % (where, show(v), show(x)))
    elif op == "popdef":
        k = r.choice([k for k in KEYS if k not in m])
        if a.pop(k, 77) != 77 or not isinstance(core.raises(lambda: a.pop(k)), KeyError):
            c.fail("pop-missing", "%s %r" % (where, k))
    elif op == "setdefault":
        k, v = key(), val()
        if k in prot:
            return
        g = a.setdefault(k, v)
        x = m.setdefault(k, v)
        if not (g == x if hooks else eq(g, x)):
            c.fail("setdefault", "%s: %s, expected %s" % (where, show(g), show(x)))
    elif op == "popitem" and m and not any(k in m for k in prot):
        k, v = a.popitem()
        if k not in m or not (v == m[k] if hooks else eq(v, m[k])):
            c.fail("popitem", "%s: %r %s" % (where, k, show(v)))
        del m[k]
    elif op == "clear" and r.random() < .3 and not any(k in m for k in prot):
        a.clear()
        m.clear()
    elif op == "eq" and not hooks:
        if not (a == dict(m)) or a == dict(m, extra_key=1):
            c.fail("eq", "%s: compares wrongly with %s" % (where, show(m)))
    elif op == "invalid":
        v = r.choice([object(), b"bytes", {1, 2}, float("nan"), float("inf"), float("-inf"), [1, float("nan")], {"a": {"b": float("inf")}}, "\ud800", np.arange(3), lambda: 1])
        if hooks:
            v = r.choice([object(), b"bytes", float("nan")])
        u = {"a": 1, "zz": v, "b": 2}
        e = core.raises(lambda: a.update(u)) if r.random() < .5 else core.raises(lambda: a.__setitem__("zz", v))
        c.note(repr(v)[:60], repr(e)[:80])
        if e is None:
            if isinstance(v, (str, float, list, dict)):       # not JSON, but storable: it must come back
                c.fail("invalid-accepted", "%s: %r" % (where, v))
            c.fail("invalid-accepted", "%s: %r" % (where, v))
    elif op == "reserved" and prot:
        k = r.choice(prot)
        how = r.choice(["set", "update", "del", "pop"]) if n else r.choice(["set", "del"])
        c.note(how, k)
        v = r.choice([[1, 1], "uint8", {"type": "raw"}, None, 5])
        if how == "set":
            e = core.raises(lambda: a.__setitem__(k, v))
        elif how == "update":
            e = core.raises(lambda: a.update({"a": 1, k: v, "zz": 2}))
        elif how == "del":
            e = core.raises(lambda: a.__delitem__(k))
        else:
            e = core.raises(lambda: a.pop(k))
        if e is None and not (how == "del" and k == "compressionType"):
            c.fail("reserved:" + how, "%s: %s of %r did not raise" % (where, how, k))
    elif op == "foreign" and not hooks:
        w.foreign(n)


def threads(c, i):
    """every thread owns the attributes of one node"""
    import z5py, random
    r = c.rnd
    fmt = core.FORMATS[i // 10 % 3]
    w = World(c, fmt)
    c.sig, c.sample, c.nontrivial = core.digest("t", fmt, i), "%s attributes from one thread per node" % fmt, True
    bad = []
    seeds = {n: r.getrandbits(30) for n in w.nodes}
    gate = threading.Barrier(len(w.nodes))

    def run(n):
        rr = random.Random(seeds[n])
        a, m = w.get(n), w.model[n]
        gate.wait()
        try:
            for _ in range(25):
                k = rr.choice([k for k in KEYS if k not in w.protected(n)])
                if rr.random() < .3 and k in m:
                    del a[k]
                    del m[k]
                elif rr.random() < .5:
                    v = value(rr)
                    a[k] = v
                    m[k] = v
                else:
                    got = a.get(k, bad)
                    if (k in m) != (got is not bad) or k in m and not eq(got, m[k]):
                        bad.append("%r %r: %s" % (n, k, show(got)))
        except Exception as e:
            bad.append("%r: %r" % (n, e))
    ts = [threading.Thread(target=run, args=(n,)) for n in w.nodes]
    [t.start() for t in ts]
    [t.join() for t in ts]
    c.ev("thread_rounds")
    if bad:
        c.fail("threads", "%s: %s" % (fmt, bad[:3]))
    w.f = core.open_file(w.path, fmt, "r")
    for n in w.nodes:
        w.check(n, True)
    w.check_rest()
