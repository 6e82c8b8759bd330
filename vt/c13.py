"""groups and datasets form a tree of named nodes: random histories of hierarchy operations next to a model, the directory tree and the surroundings"""
import json, os, pickle
import numpy as np
from . import c03, core, decode
from .core import same

POOL = ["a", "b", "ab", "a1", "A", "0", "0.0", "1", "c", "\u00fc", "x y", "a.b", ".hid", "d", "data", "c0", "n5", "name-1", "Q" * 60]


class Node:
    def __init__(self, kind, spec=None, data=None):
        self.kind, self.spec, self.data, self.attrs = kind, spec, data, {}


def case(c, i):
    r = c.rnd
    t = Tree(c, core.FORMATS[i % 3], i)
    c.sig, c.nontrivial = core.digest(t.fmt, i), True
    c.sample = "%s hierarchy history %d" % (t.fmt, i)
    for n in range(r.randint(10, 45)):
        t.step()
        t.disk()
        if n % 4 == 3:
            t.api(t.f)
    t.f = t.open("r")
    t.api(t.f, True)
    t.nothing_outside()
    return


class Tree:
    def __init__(self, c, fmt, i):
        self.c, self.fmt = c, fmt
        self.outer = os.path.join(c.dir, "in")
        os.mkdir(self.outer)
        self.sib = os.path.join(self.outer, "sib")
        os.makedirs(os.path.join(self.sib, "x"))
        ext = ".n5" if fmt == "n5" else ".zarr"
        self.path = os.path.join(self.outer, "m" + ext)
        # surroundings: a plain directory, a prefix of the container's name and other containers
        for k, p in enumerate(("m" + ext + "2", "m", "sib/c" + ext)):
            f = core.open_file(os.path.join(self.outer, p), fmt, "a") if p.endswith(ext) else None
            if f is None:
                os.makedirs(os.path.join(self.outer, p, "a"))
                with open(os.path.join(self.outer, p, "a", "f"), "w") as h:
                    h.write("x")
            else:
                f.create_group("a/b")
        self.sep = c.rnd.choice("./") if fmt == "zarr2" else "."
        self.m = {}                     # path (without leading slash) -> Node
        self.f = self.open("a")
        self.surround = self.outside()

    def open(self, mode):
        return core.open_file(self.path, core.Spec(fmt=self.fmt, sep=self.sep), mode)

    def outside(self):
        base = os.path.basename(self.path) + "/"
        return {k: v for k, v in core.snapshot(self.outer).items() if not k.startswith(base)}

    def nothing_outside(self, what="the history"):
        d = core.snap_diff(self.surround, self.outside())
        if d:
            self.c.fail("outside", "%s changed %s next to the container (%s)" % (what, d[:5], self.fmt))

    # -- model
    def children(self, p):
        pre = p + "/" if p else ""
        return sorted({k[len(pre):].split("/")[0] for k in self.m if k.startswith(pre)})

    def below(self, p):
        pre = p + "/" if p else ""
        return {k[len(pre):]: v for k, v in self.m.items() if k.startswith(pre)}

    def groups(self):
        return [""] + [k for k, v in self.m.items() if v.kind == "group"]

    def datasets(self):
        return [k for k, v in self.m.items() if v.kind == "dataset"]

    # -- spelling and choosing
    def spell(self, p):
        r = self.c.rnd
        k = r.random()
        if k < .65:
            return p
        self.c.ev("spellings")
        if k < .85:
            return "/" + p
        if k < .9:
            return "//" + p
        return p.replace("/", "//")

    def base(self):
        """a group to operate on -> (path, object)"""
        r = self.c.rnd
        p = r.choice(self.groups()) if r.random() < .5 else ""
        if p == "":
            return "", self.f
        o = self.f[p]
        if r.random() < .3:
            o = self.f
            for q in p.split("/"):
                o = o[q]
        if r.random() < .15:
            o = pickle.loads(pickle.dumps(o))
            self.c.ev("pickled")
        return p, o

    def name(self, base, exists=None):
        """a name relative to the base"""
        r = self.c.rnd
        b = self.below(base)
        if exists or (exists is None and r.random() < .4):
            if not b:
                return None
            return r.choice(sorted(b))
        for _ in range(40):
            pre = r.choice([""] + sorted(b)) if r.random() < .6 else ""
            n = "/".join(([pre] if pre else []) + [r.choice(POOL) for _ in range(r.choice([1, 1, 1, 2, 3]))])
            if n not in b:
                return n
        return None

    def full(self, base, n):
        return base + "/" + n if base else n

    def blocked(self, p):
        """does a prefix of the path name a dataset?"""
        parts = p.split("/")
        return any("/".join(parts[:k]) in self.m and self.m["/".join(parts[:k])].kind == "dataset" for k in range(1, len(parts)))

    def add(self, p, node):
        parts = p.split("/")
        for k in range(1, len(parts)):
            self.m.setdefault("/".join(parts[:k]), Node("group"))
        self.m[p] = node

    # -- comparisons
    def disk(self):
        c = self.c
        c.ev("disk_checks")
        found, odd = {}, []
        ok = {"n5": {"attributes.json"}, "zarr2": {".zgroup", ".zattrs"}, "zarr3": {"zarr.json"}}[self.fmt]
        for r, ds, fs in os.walk(self.path):
            p = os.path.relpath(r, self.path)
            p = "" if p == "." else p
            kind = self.kind_on_disk(r)
            if p:
                found[p] = kind
            if kind == "dataset":
                ds[:] = []
                continue
            odd += [os.path.join(p, x) for x in fs if x not in ok]
        exp = {k: v.kind for k, v in self.m.items()}
        if found != exp:
            c.fail("disk", "%s: the container has the nodes %s, expected %s" % (self.fmt, diff(found, exp), diff(exp, found)))
        if odd:
            c.fail("disk-files", "%s: files that belong to no node: %s" % (self.fmt, odd[:5]))

    def kind_on_disk(self, d):
        try:
            if self.fmt == "n5":
                p = os.path.join(d, "attributes.json")
                return "dataset" if os.path.exists(p) and "dimensions" in json.load(open(p)) else "group"
            if self.fmt == "zarr2":
                z = [x for x in (".zarray", ".zgroup") if os.path.exists(os.path.join(d, x))]
                return {(".zarray",): "dataset", (".zgroup",): "group"}.get(tuple(z), "none %s" % z)
            p = os.path.join(d, "zarr.json")
            return {"array": "dataset", "group": "group"}.get(json.load(open(p))["node_type"], "?") if os.path.exists(p) else "none"
        except ValueError as e:
            return "broken %s" % e

    def same_node(self, o, p, what):
        """does the object behave as the node it was created as?"""
        import z5py
        c, n = self.c, self.m[p]
        if isinstance(o, z5py.Dataset) != (n.kind == "dataset") or isinstance(o, z5py.Group) != (n.kind == "group"):
            c.fail("kind", "%s: %s %r opens as %s" % (self.fmt, n.kind, p, type(o).__name__))
        if o.name.replace("//", "/") != "/" + p:
            c.fail("name", "%s: %r has the name %r (%s)" % (self.fmt, p, o.name, what))
        if {k: v for k, v in o.attrs.items()} != n.attrs:
            c.fail("attrs", "%s: %r has the attributes %s, expected %s (%s)" % (self.fmt, p, dict(o.attrs.items()), n.attrs, what))
        if os.path.abspath(o.file.filename) != self.path or o.is_zarr != (self.fmt != "n5"):
            c.fail("file", "%s: %r %s" % (self.fmt, p, o.file.filename))
        if n.kind == "dataset":
            s = n.spec
            if (o.shape, o.chunks, o.dtype, tuple(o.shards or ())) != (tuple(s.shape), tuple(s.chunks), np.dtype(s.dtype), tuple(s.shards)) or not same(o[...], n.data):
                c.fail("dataset", "%s: %r opens as %s %s (%s), created as %s" % (self.fmt, p, o.shape, o.dtype, what, s.desc()))
        c.ev("nodes_compared")

    def api(self, f, every=False):
        """everything the API shows of the tree agrees with the model"""
        import z5py
        c, r = self.c, self.c.rnd
        c.ev("api_checks")
        gs = self.groups()
        for g in gs if every else r.sample(gs, min(3, len(gs))):
            o = f if g == "" else f[self.spell(g)]
            ch = self.children(g)
            lists = dict(keys=sorted(o.keys()), iter=sorted(o), len=len(o), values=len(list(o.values())), items=sorted(k for k, _ in o.items()))
            if lists != dict(keys=ch, iter=ch, len=len(ch), values=len(ch), items=ch):
                c.fail("listing", "%s: %r lists %s, expected %s" % (self.fmt, g, lists, ch))
            for k, x in o.items():
                self.same_node(x, self.full(g, k), "items")
            seen = []
            if o.visititems(lambda k, x: seen.append((k, x))) is not None:
                c.fail("visit-return", self.fmt)
            b = self.below(g)
            if sorted(k for k, _ in seen) != sorted(b):
                c.fail("visits", "%s: visits %s from %r, expected %s" % (self.fmt, sorted(k for k, _ in seen), g, sorted(b)))
            for k, x in seen:
                if isinstance(x, z5py.Dataset) != (b[k].kind == "dataset"):
                    c.fail("visit-kind", "%s: %r" % (self.fmt, k))
            if b:
                stop, calls = r.choice(sorted(b)), []
                val = r.choice([stop, stop, 0, False, "", [], 0.0])
                ret = o.visititems(lambda k, x: calls.append(k) or (val if k == stop else None))
                if ret is not val or calls[-1] != stop or calls.count(stop) != 1:
                    c.fail("visit-stop", "%s: %r returned %r after %s" % (self.fmt, stop, ret, calls))
            for k in list(b) if every else r.sample(sorted(b), min(4, len(b))):
                q = self.spell(k)
                if q not in o or o.is_sub_group(k) != (b[k].kind == "group"):
                    c.fail("membership", "%s: %r in %r is %s, is_sub_group %s" % (self.fmt, q, g, q in o, o.is_sub_group(k)))
                self.same_node(o[q], self.full(g, k), "getitem")
                self.same_node(o.get(q), self.full(g, k), "get")
                if r.random() < .3:
                    self.same_node(pickle.loads(pickle.dumps(o[q])), self.full(g, k), "pickle")
                x = o[k]
                if x.parent.name.replace("//", "/").rstrip("/") not in ("/" + os.path.dirname(self.full(g, k)), ("/" + g).rstrip("/")):
                    c.fail("parent", "%s: %r has the parent %r" % (self.fmt, k, x.parent.name))
            for _ in range(4):
                k = self.name(g, False)
                if k is None or self.blocked(self.full(g, k)) and k.split("/")[-1] in ("0", "1", "c", "c0", "0.0"):
                    continue        # (may be a directory of chunks: see DESIGN.md)
                q = self.spell(k)
                c.ev("absent_lookups")
                if q in o or o.get(q, c) is not c or not isinstance(core.raises(lambda: o[q]), KeyError):
                    c.fail("absent", "%s: %r does not exist, but in: %s, opening: %r" % (self.fmt, q, q in o, core.raises(lambda: o[q])))

    # -- operations
    def step(self):
        c, r = self.c, self.c.rnd
        op = r.choice(["create_group", "create_group", "create_dataset", "create_dataset", "require_group", "require_group", "require_dataset", "delete", "delete", "recreate",
                       "attr", "data", "reopen", "duplicate", "mismatch", "missing", "blocked", "escape", "odd"])
        c.ev("op_" + op)
        getattr(self, "op_" + op)()

    def spec(self, name):
        c = self.c
        s = core.rand_spec(c, fmt=self.fmt, maxel=25, key=name)
        if self.fmt == "zarr2":
            s.sep = self.sep
        return s

    def check_new(self, o, p, what):
        """a node that was just created is empty"""
        self.same_node(o, p, what)
        n = self.m[p]
        if n.kind == "group" and (len(o) or list(o)):
            self.c.fail("not-fresh", "%s: the new group %r contains %s" % (self.fmt, p, list(o)))

    def make(self, kind, how, b, o, n):
        c = self.c
        p, q = self.full(b, n), self.spell(n)
        c.note(how, kind, repr(b), repr(q))
        if kind == "group":
            x = getattr(o, how + "_group")(q)
            self.add(p, Node("group"))
        else:
            s = self.spec(q)
            fill = np.full(s.shape, s.fillval(), s.dtype)
            kw = dict(s.opts)
            if s.zarr:
                kw["fillvalue"] = s.fill
            if s.fmt == "zarr3":
                kw.update(chunk_key_encoding=s.enc, **({"shards": s.shards} if s.shards else {}))
            a = core.rand_data(c, s.shape, s.dtype, "full") if c.rnd.random() < .4 else None
            if how == "create" and a is not None:
                x = o.create_dataset(q, data=a, chunks=s.chunks, compression=s.comp, **kw)
                fill = a
            elif how == "create":
                x = core.create_py(o, s)
            elif c.rnd.random() < .3:
                x = o.require_dataset(q, shape=s.shape, chunks=s.chunks, dtype=s.dtype, compression="raw")
                s.shards, s.fill, s.comp, s.opts, s.enc = (), 0, "raw", {}, "default"
                s.sep = "/" if s.fmt == "zarr3" else s.sep
                fill = np.zeros(s.shape, s.dtype)
            else:
                x = o.require_dataset(q, shape=s.shape, chunks=s.chunks, dtype=s.dtype, compression=s.comp, **(dict(kw, data=a) if a is not None else kw))
                fill = fill if a is None else a
            dp = os.path.join(self.path, p)
            c03.meta_check(c, s, decode.meta(dp, s.fmt), "py")
            self.add(p, Node("dataset", s, fill))
        self.check_new(x, p, how)
        return p

    def op_create_group(self, kind="group", how="create"):
        b, o = self.base()
        n = self.name(b, False)
        if n is None or self.blocked(self.full(b, n)) or self.full(b, n).count("/") > 5:
            return
        p = self.make(kind, how, b, o, n)
        if self.c.rnd.random() < .5:
            self.set_attr(p)

    def op_create_dataset(self):
        self.op_create_group("dataset")

    def op_require_group(self):
        b, o = self.base()
        ex = [k for k, v in self.below(b).items() if v.kind == "group"]
        if ex and self.c.rnd.random() < .6:
            n = self.c.rnd.choice(sorted(ex))
            snap = core.snapshot(self.path)
            self.same_node(o.require_group(self.spell(n)), self.full(b, n), "require")
            self.unchanged(snap, "requiring the group %r" % n)
        else:
            self.op_create_group("group", "require")

    def op_require_dataset(self):
        b, o = self.base()
        ex = [k for k, v in self.below(b).items() if v.kind == "dataset"]
        if ex and self.c.rnd.random() < .6:
            n = self.c.rnd.choice(sorted(ex))
            s = self.m[self.full(b, n)].spec
            snap = core.snapshot(self.path)
            kw = self.c.rnd.choice([dict(shape=s.shape), dict(shape=list(s.shape), dtype=np.dtype(s.dtype)), dict(shape=s.shape, chunks=list(s.chunks), dtype=s.dtype), dict(shape=s.shape, chunks=s.chunks),
                                    # (what it would be created with: chunks are limited to the shape)
                                    dict(shape=s.shape, chunks=tuple(a + 3 if a == b else a for a, b in zip(s.chunks, s.shape)), dtype=s.dtype)])
            self.same_node(o.require_dataset(self.spell(n), **kw), self.full(b, n), "require")
            self.unchanged(snap, "requiring the dataset %r" % n)
        else:
            self.op_create_group("dataset", "require")

    def unchanged(self, snap, what):
        d = core.snap_diff(snap, core.snapshot(self.path))
        if d:
            self.c.fail("changed", "%s: %s changed %s" % (self.fmt, what, d[:5]))

    def op_delete(self):
        b, o = self.base()
        n = self.name(b, True)
        if n is None:
            return
        p = self.full(b, n)
        self.delete(o, self.spell(n), p)

    def delete(self, o, q, p):
        self.c.note("delete", repr(q), repr(p))
        keep = {k: v for k, v in core.snapshot(self.path).items() if not (k + "/").startswith(p + "/")}
        if self.c.rnd.random() < .2:
            # a link in the subtree to something beside it: only the link may go
            to = self.c.rnd.choice([self.sib, os.path.join(self.outer, "m")] + [os.path.join(self.path, x) for x in self.m if not (x + "/").startswith(p + "/") and not (p + "/").startswith(x + "/")])
            os.symlink(to, os.path.join(self.path, p, "link"))
            self.c.ev("deleted_links")
        del o[q]
        for k in [k for k in self.m if k == p or k.startswith(p + "/")]:
            del self.m[k]
        now = core.snapshot(self.path)
        d = core.snap_diff(keep, now)
        if d:
            self.c.fail("deleted", "%s: deleting %r: %s" % (self.fmt, p, d[:5]))
        if q in o:
            self.c.fail("deleted-exists", "%s: %r" % (self.fmt, p))

    def op_recreate(self):
        """delete a node and use its name for another one"""
        b, o = self.base()
        n = self.name(b, True)
        if n is None:
            return
        self.delete(o, self.spell(n), self.full(b, n))
        self.make(self.c.rnd.choice(["group", "dataset"]), self.c.rnd.choice(["create", "require"]), b, o, n)

    def set_attr(self, p):
        r = self.c.rnd
        k, v = r.choice(["k", "id", "kind"]), [p, r.randrange(1000)]
        self.f[p].attrs[k] = v
        self.m[p].attrs[k] = v

    def op_attr(self):
        if self.m:
            self.set_attr(self.c.rnd.choice(sorted(self.m)))

    def op_data(self):
        ds = self.datasets()
        if ds:
            p = self.c.rnd.choice(sorted(ds))
            n = self.m[p]
            lo, hi = core.rand_roi(self.c, n.spec.shape, n.spec)
            x = core.rand_data(self.c, [b - a for a, b in zip(lo, hi)], n.spec.dtype, "full")
            self.f[p][core.sl(lo, hi)] = x
            n.data[core.sl(lo, hi)] = x

    def op_reopen(self):
        r = self.c.rnd
        if r.random() < .3:
            self.f = pickle.loads(pickle.dumps(self.f))
            self.c.ev("pickled")
        else:
            self.f = self.open(r.choice(["a", "r+"]))
        self.api(self.f)

    def op_duplicate(self):
        """creating an existing name raises and changes nothing"""
        b, o = self.base()
        n = self.name(b, True)
        if n is None:
            return
        q = self.spell(n)
        snap = core.snapshot(self.path)
        s = self.m[self.full(b, n)].spec
        calls = [lambda: o.create_group(q), lambda: o.create_dataset(q, shape=(3,), chunks=(2,), dtype="uint8"), lambda: o.create_dataset(q, data=np.arange(5))]
        if s:
            calls.append(lambda: o.create_dataset(q, shape=s.shape, chunks=s.chunks, dtype=s.dtype))
        for k in calls:
            e = core.raises(k)
            self.c.ev("duplicates")
            if e is None:
                self.c.fail("duplicate", "%s: creating %r again did not raise" % (self.fmt, q))
            self.unchanged(snap, "creating %r again (%r)" % (q, e))

    def op_mismatch(self):
        """require with another kind or specification raises and changes nothing"""
        b, o = self.base()
        n = self.name(b, True)
        if n is None:
            return
        q, node = self.spell(n), self.m[self.full(b, n)]
        snap = core.snapshot(self.path)
        if node.kind == "group":
            calls = [lambda: o.require_dataset(q, shape=(3,), chunks=(2,), dtype="uint8"), lambda: o.require_dataset(q, shape=(3,))]
        else:
            s = node.spec
            other = "float64" if s.dtype != "float64" else "int8"
            calls = [lambda: o.require_group(q), lambda: o.require_dataset(q, shape=tuple(s.shape) + (1,)), lambda: o.require_dataset(q, shape=(s.shape[0] + 1,) + tuple(s.shape[1:]), dtype=s.dtype),
                     lambda: o.require_dataset(q, shape=s.shape, dtype=other)]
            sh, ch = tuple(s.shape), tuple(s.chunks)
            rep = lambda t, d, v: t[:d] + (v,) + t[d + 1:]
            d = self.c.rnd.randrange(len(sh))
            # anything that differs in one place only
            calls += [lambda: o.require_dataset(q, shape=sh, chunks=ch[:-1], dtype=s.dtype), lambda: o.require_dataset(q, shape=sh, chunks=ch + (1,), dtype=s.dtype),
                      lambda: o.require_dataset(q, shape=sh[:-1], dtype=s.dtype)]
            if sh[d] > 1:
                calls.append(lambda: o.require_dataset(q, shape=rep(sh, d, sh[d] - 1), chunks=s.chunks, dtype=s.dtype))
            if ch[d] > 1:
                calls.append(lambda: o.require_dataset(q, shape=sh, chunks=rep(ch, d, ch[d] - 1), dtype=s.dtype))
                calls.append(lambda: o.require_dataset(q, shape=sh, chunks=rep(ch, d, 1), dtype=s.dtype))
            if ch[d] + 1 <= sh[d]:
                calls.append(lambda: o.require_dataset(q, shape=sh, chunks=rep(ch, d, ch[d] + 1), dtype=s.dtype))
            for x in core.PYTYPES:
                if x != s.dtype and np.dtype(x).itemsize == np.dtype(s.dtype).itemsize:
                    calls.append(lambda x=x: o.require_dataset(q, shape=sh, chunks=ch, dtype=x))
            if ch[::-1] != ch:
                # (chunks are limited to the shape when the dataset is created)
                if tuple(min(a, b) for a, b in zip(ch[::-1], sh)) != ch:
                    calls.append(lambda: o.require_dataset(q, shape=sh, chunks=ch[::-1], dtype=s.dtype))
            if len(set(s.shape)) > 1:
                calls.append(lambda: o.require_dataset(q, shape=s.shape[::-1] if s.shape[::-1] != s.shape else s.shape + (1,), dtype=s.dtype))
        for k in calls:
            e = core.raises(k)
            self.c.ev("mismatches")
            if e is None:
                self.c.fail("mismatch", "%s: requiring %r (%s) differently did not raise" % (self.fmt, q, node.kind))
            self.unchanged(snap, "requiring %r differently (%r)" % (q, e))

    def op_missing(self):
        """deleting or opening what does not exist raises and changes nothing"""
        b, o = self.base()
        n = self.name(b, False)
        if n is None or self.blocked(self.full(b, n)):
            return
        q = self.spell(n)
        snap = core.snapshot(self.path)
        for k in (lambda: o.__delitem__(q), lambda: o[q]):
            e = core.raises(k)
            if not isinstance(e, KeyError):
                self.c.fail("missing", "%s: %r: %r" % (self.fmt, q, e))
        self.unchanged(snap, "using the missing %r" % q)

    def op_blocked(self):
        """nothing can be created below a dataset"""
        ds = self.datasets()
        if not ds:
            return
        p = self.c.rnd.choice(sorted(ds)) + "/" + self.c.rnd.choice(["zz", "zz/y", "data"])
        snap = core.snapshot(self.path)
        for k in (lambda: self.f.create_group(p), lambda: self.f.create_dataset(p, shape=(3,), chunks=(2,), dtype="uint8"), lambda: self.f.require_group(p),
                  lambda: self.f.require_dataset(p, shape=(3,), chunks=(2,), dtype="uint8")):
            e = core.raises(k)
            self.c.ev("blocked")
            if e is None:
                self.c.fail("below-dataset", "%s: %r was created below a dataset" % (self.fmt, p))
            self.unchanged(snap, "creating %r below a dataset (%r)" % (p, e))

    def op_escape(self):
        """keys that would leave the container do not"""
        import z5vt
        c, r = self.c, self.c.rnd
        b, o = self.base()
        up = "../" * (b.count("/") + 2 if b else 1)
        g = self.name(b, True) or "a"
        deep = g + "/" + "../" * (g.count("/") + 1) + up
        q = r.choice([up + "sib", up + "sib/x", up + "evil", up + "evil/y", deep + "sib", deep + "evil", up + os.path.basename(self.path) + "2", "..", up[:-1], "./" + up + "sib", up + "sib/c" + os.path.splitext(self.path)[1]])
        c.ev("escapes")
        snap = core.snapshot(self.path)
        fmt = 3 if self.fmt == "zarr3" else 2
        calls = [("create_group", lambda: o.create_group(q)), ("create_dataset", lambda: o.create_dataset(q, shape=(3,), chunks=(2,), dtype="uint8")), ("require_group", lambda: o.require_group(q)),
                 ("require_dataset", lambda: o.require_dataset(q, shape=(3,), chunks=(2,), dtype="uint8")), ("delete", lambda: o.__delitem__(q)),
                 ("open", lambda: o[q]), ("cpp-create", lambda: z5vt.create(self.path, q if b == "" else "../sib/new", "uint8", [4], [2], "raw", "{}", 0., ".", fmt)),
                 ("cpp-open", lambda: z5vt.open(self.path, "../sib/c" + os.path.splitext(self.path)[1] + "/a"))]
        for name, k in calls:
            c.note("escape", name, q)
            e = core.raises(k)
            self.nothing_outside("%s(%r)" % (name, q))
            self.unchanged(snap, "%s(%r) (%r)" % (name, q, e))
            if e is None:
                c.fail("escape:" + name, "%s: %s(%r) in %r did not raise" % (self.fmt, name, q, b))
        # an absolute path is a key like any other
        if r.random() < .3 and b == "" and "abs" not in self.m:
            q = os.path.join(self.sib, "x", "new")
            for call in (lambda: o.create_group(q), lambda: z5vt.create(self.path, q + "d", "uint8", [4], [2], "raw", "{}", 0., ".", fmt)):
                core.raises(call)
                self.nothing_outside("the key %r" % q)
            if q not in o:
                c.fail("absolute", "%s: %r is not in the container" % (self.fmt, q))
            del o["/" + q.split("/")[1]]

    def op_odd(self):
        """odd names raise or behave like names, and change nothing else"""
        r = self.c.rnd
        keep = core.snapshot(self.path)
        q = r.choice(["", "/", ".", "//", "./.", "Q" * 300, "nul\0x"])
        calls = [lambda: self.f.create_group(q), lambda: self.f.require_dataset(q, shape=(3,), chunks=(2,), dtype="uint8"),
                 lambda: self.f.create_dataset(q, shape=(3,), chunks=(2,), dtype="uint8"), lambda: q in self.f, lambda: self.f.get(q), lambda: self.f.require_group(q)]
        k = r.choice(calls)
        e = core.raises(k)
        self.c.note("odd", repr(q)[:20], repr(e)[:80])
        if q.startswith("nul") and e is None:
            for n in [n for n in os.listdir(self.path) if n == "nul"]:      # C strings end at the NUL: the name is the part before it
                del self.f["nul"]
        self.unchanged(keep, "the odd name %r (%r)" % (q[:20], e))


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k) != v}
