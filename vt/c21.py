"""C21: processes that share a container. Writers with disjoint targets, readers and observers run at the same time in forked processes;
per target a shared-memory register of started and completed operations bounds what a concurrent observer may see."""
import json, mmap, os, random, signal, sys, threading, time, traceback
import numpy as np
from . import core
from .core import same, sl, Shim

RUN_LIMIT = 100
DELAY = 1 << Shim.OPENR | 1 << Shim.OPENW | 1 << Shim.RENAME | 1 << Shim.MKDIR | 1 << Shim.CLOSEW | 1 << Shim.UNLINK | 1 << Shim.RMDIR | 1 << Shim.STAT


def setup():
    Shim()


class Bad(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


class Registers:
    """started and completed operations per target (one writer each)"""

    def __init__(self, n, roles):
        self.n = n
        self.m = mmap.mmap(-1, 8 * (2 * n + 2 * roles + 8))
        self.a = np.frombuffer(self.m, dtype=np.int64)

    def begin(self, u, v):
        self.a[u] = v

    def end(self, u, v):
        self.a[self.n + u] = v

    def low(self, u):
        return int(self.a[self.n + u])

    def high(self, u):
        return int(self.a[u])

    def flag(self, k, v=None):
        if v is not None:
            self.a[2 * self.n + k] = v
        return int(self.a[2 * self.n + k])


class Role:
    """what one participant does; its events and the first violation it saw"""

    def __init__(self, name, f):
        self.name, self.f = name, f
        self.ev, self.bad, self.log = {}, None, []

    def e(self, k, n=1):
        self.ev[k] = self.ev.get(k, 0) + n

    def note(self, *a):
        self.log.append(" ".join(str(x) for x in a)[:200])
        del self.log[:-12]

    def run(self, reg, k, parties, writer):
        try:
            reg.flag(8 + k, 1)                       # start together
            t = time.time()
            while any(reg.flag(8 + j) == 0 for j in range(parties)) and time.time() - t < 30:
                time.sleep(0.0005)
            self.f(self)
        except Bad as b:
            self.bad = (b.key, str(b))
        except BaseException as e:
            self.bad = ("unexpected-exception:" + type(e).__name__, "%s: %r after %s\n%s" % (self.name, e, self.log[-4:], traceback.format_exc()[-1500:]))
        finally:
            if writer:
                reg.flag(8 + parties + k, 1)         # the readers stop when the writers have


def run_roles(c, reg, writers, readers, path, delay, per_process):
    """every role runs in a forked process (or two share one, as threads) -> events"""
    roles = [(w, True) for w in writers] + [(x, False) for x in readers]
    idx = list(range(len(roles)))
    groups = []
    while idx:
        n = min(len(idx), c.rnd.choice([1, 1, 1, 2])) if per_process else 1
        groups.append(idx[:n])
        idx = idx[n:]
    kids = []
    for g in groups:
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(a)
                sys.stdout = sys.stderr
                signal.alarm(RUN_LIMIT)
                if delay:
                    Shim().arm(path, Shim.COUNT, DELAY, 0, 0, delay)
                ts = [threading.Thread(target=roles[k][0].run, args=(reg, k, len(roles), roles[k][1])) for k in g[1:]]
                for t in ts:
                    t.start()
                roles[g[0]][0].run(reg, g[0], len(roles), roles[g[0]][1])
                for t in ts:
                    t.join()
                Shim().disarm()
                out = json.dumps([[roles[k][0].ev, roles[k][0].bad, roles[k][0].log] for k in g]).encode()
                p = 0
                while p < len(out):
                    p += os.write(b, out[p:p + 60000])
                code = 0
            except BaseException as e:
                sys.stderr.write("child: %r\n" % e)
            finally:
                os._exit(code)
        os.close(b)
        kids.append((pid, a, g))
    bad = []
    for pid, a, g in kids:
        got = b""
        while True:
            x = os.read(a, 65536)
            if not x:
                break
            got += x
        os.close(a)
        _, st = os.waitpid(pid, 0)
        rc = os.waitstatus_to_exitcode(st)
        if rc != 0:
            # the others must not wait for it
            for k in g:
                reg.flag(8 + k, 1)
                reg.flag(8 + len(roles) + k, 1)
            if rc == -signal.SIGALRM:
                bad.append(("stuck", "%s did not finish within %d s" % ([roles[k][0].name for k in g], RUN_LIMIT)))
            else:
                bad.append(("died", "%s: exit %s" % ([roles[k][0].name for k in g], rc)))
            continue
        for ev, b, log in json.loads(got):
            for k in ev:
                c.ev(k, ev[k])
            if b:
                bad.append((b[0], b[1] + " | " + "; ".join(log[-4:])))
    c.ev("processes", len(kids))
    c.ev("participants", len(roles))
    if bad:
        # a wrong value tells more than the death of a participant that met it too
        bad.sort(key=lambda x: x[0] in ("died", "stuck"))
        c.fail(bad[0][0], bad[0][1])


def writers_done(reg, nw, parties):
    return all(reg.flag(8 + parties + k) for k in range(nw))


def case(c, i):
    if i % 3 == 2:
        return nodes(c, i)
    return chunks(c, i)


# ---------------------------------------------------------------------------------------------
# chunk data

def chunks(c, i):
    r = c.rnd
    f = ["n5", "zarr2", "zarr3", "sharded"][(i // 3 * 2 + i % 3) % 4]
    large = r.random() < .08
    for _ in range(60):
        if large:
            s = core.large_spec(c, fmt="zarr3" if f == "sharded" else f, sharded=f == "sharded", dtype=r.choice(core.PYTYPES))
        else:
            s = core.rand_spec(c, fmt="zarr3" if f == "sharded" else f, sharded=f == "sharded", dtype=r.choice(core.PYTYPES), maxel=r.choice([60, 400, 3000]))
        un = s.shards if s.shards else s.chunks
        grid = tuple(-(-a // b) for a, b in zip(s.shape, un))
        n = int(np.prod(grid))
        if 2 <= n <= 48 and int(np.prod(s.grid)) <= 200:
            break
    else:
        c.nontrivial = False
        return
    if large and s.comp in ("xz", "bzip2"):
        s.comp, s.opts = "raw", {}
    units = [tuple(int(x) for x in q) for q in np.ndindex(*grid)]
    ureg = [tuple(slice(q * b, min((q + 1) * b, e)) for q, b, e in zip(u, un, s.shape)) for u in units]
    ufirst = {u: k for k, u in enumerate(units)}
    cunit = {cid: ufirst[tuple(reg.start // b for reg, b in zip(core.chunk_region(s, cid), un))] for cid in core.all_chunks(s)}
    nw, nr = r.choice([1, 2, 2, 3, 4]), r.choice([1, 1, 2])
    nops = r.choice([4, 12, 30]) if large else r.choice([12, 40, 80])
    path = os.path.join(c.dir, "m" + s.file_ext())
    fl = core.open_file(path, s)
    core.create_py(fl, s)
    fill = s.fillval()
    # the contents of the units: versions[u][v]
    versions = [[np.full([x.stop - x.start for x in reg], fill, s.dtype)] for reg in ureg]
    owner = [r.randrange(nw) for _ in units]
    few = r.random() < .3          # few units: many versions of each
    if few:
        owner = [(o if k < 2 * nw else -1) for k, o in enumerate(owner)]
        for w in range(nw):
            owner[w % len(units)] = w
    if r.random() < .6:            # content from before
        x = core.rand_data(c, s.shape, s.dtype, r.choice(["full", "full", "sparse"]))
        fl["d"][...] = x
        for k, reg in enumerate(ureg):
            versions[k][0] = x[reg].copy()
    plans = []
    for w in range(nw):
        own = [k for k in range(len(units)) if owner[k] == w]
        ops = []
        for _ in range(nops if own else 0):
            k = r.choice(own)
            reg = ureg[k]
            last = versions[k][-1]
            how = r.choice(["whole", "whole", "part", "part", "scalar", "clear", "clear-part", "chunk"])
            if nw == 1 and not few and r.random() < .3:
                how = "roi"
            if how == "roi":
                lo, hi = core.rand_roi(c, s.shape, s)
            elif how in ("whole", "clear", "scalar"):
                lo, hi = [x.start for x in reg], [x.stop for x in reg]
            elif how == "chunk":
                cid = r.choice([q for q in cunit if cunit[q] == k])
                lo, hi = [x.start for x in core.chunk_region(s, cid)], [x.stop for x in core.chunk_region(s, cid)]
            else:
                lo, hi = core.rand_roi(c, last.shape)
                lo, hi = [a + x.start for a, x in zip(lo, reg)], [a + x.start for a, x in zip(hi, reg)]
            shp = [b - a for a, b in zip(lo, hi)]
            if how in ("clear", "clear-part"):
                val = fill
            elif how == "scalar":
                val = core.rand_data(c, (1,), s.dtype, "full")[0]
            else:
                val = core.rand_data(c, shp, s.dtype, r.choice(["full", "full", "const"]))
            touched = []
            for q in (range(len(units)) if how == "roi" else [k]):
                ol = [max(a, x.start) for a, x in zip(lo, ureg[q])]
                oh = [min(b, x.stop) for b, x in zip(hi, ureg[q])]
                if any(a >= b for a, b in zip(ol, oh)):
                    continue
                new = versions[q][-1].copy()
                new[tuple(slice(a - x.start, b - x.start) for a, b, x in zip(ol, oh, ureg[q]))] = \
                    val if np.ndim(val) == 0 else val[tuple(slice(a - o, b - o) for a, b, o in zip(ol, oh, lo))]
                versions[q].append(new)
                touched.append((q, len(versions[q]) - 1))
            ops.append((how, lo, hi, val, touched, r.choice([1, 1, 2, 4]), r.random() < .05))
        plans.append(ops)
    reg = Registers(len(units), nw + nr)
    parties = nw + nr

    def writer(w):
        def f(me):
            rr = random.Random(i * 1000 + w)
            d = core.open_file(path, s, rr.choice(["a", "r+"]))["d"]
            for how, lo, hi, val, touched, nt, again in plans[w]:
                if again:
                    d = core.open_file(path, s, rr.choice(["a", "r+"]))["d"]
                d.n_threads = nt
                me.note(how, lo, hi, touched, "nt=%d" % nt)
                for q, v in touched:
                    reg.begin(q, v)
                if how == "chunk" and rr.random() < .7:
                    cid = tuple(a // b for a, b in zip(lo, s.chunks))
                    full = np.full(s.chunks, fill, s.dtype)
                    full[tuple(slice(0, n) for n in val.shape)] = val
                    d.write_chunk(list(cid), full if s.zarr else val)
                else:
                    d[sl(lo, hi)] = val.item() if np.ndim(val) == 0 else val
                for q, v in touched:
                    reg.end(q, v)
                me.e("writes")
                me.e("versions", len(touched))
        return f

    def feasible(me, cid, part, got, lo, hi, seen, what):
        """part: region of the array inside of the chunk, got: its values; versions lo..hi of the unit are possible"""
        k = cunit[cid]
        at = tuple(slice(x.start - o.start, x.stop - o.start) for x, o in zip(part, ureg[k]))
        lo = max(lo, seen.get(cid, 0))
        ok = [v for v in range(lo, hi + 1) if same(got, versions[k][v][at])]
        me.e("chunks_judged")
        if hi > lo:
            me.e("chunks_judged_during_writes")
        if not ok:
            old = [v for v in range(0, lo) if same(got, versions[k][v][at])]
            mix = got.size > 1 and hi > lo
            raise Bad("stale" if old else "torn" if mix else "wrong", "%s: chunk %s (unit %d) of %s: the values are of %s; the versions %d..%d were possible%s" % (
                what, cid, k, s.desc(), "version %s" % old if old else "no version", lo, hi,
                "; against the latest: " + core.first_diff(got, versions[k][hi][at])))
        if len(ok) < hi - lo + 1:
            me.e("distinguishing_reads")
        if ok[0] > lo and hi > lo:
            me.e("saw_a_write_in_progress_or_done_since")
        seen[cid] = ok[0]

    def may_vanish(k, lo, hi, at=()):
        """a file of the unit (or its part at) is removed by one of the operations in progress"""
        return any(bool(np.all(versions[k][v] == fill)) or at and bool(np.all(versions[k][v][at] == fill)) for v in range(lo + 1, hi + 1))

    def reader(x):
        def f(me):
            rr = random.Random(i * 1000 + 500 + x)
            cc = core.Ctx.__new__(core.Ctx)
            cc.rnd = rr
            d = core.open_file(path, s, "r")["d"]
            seen = {}
            hot = [q for q in range(len(units)) if len(versions[q]) > 1] or list(range(len(units)))
            last = False
            while True:
                last = writers_done(reg, nw, parties)
                how = rr.choice(["region", "region", "unit", "unit", "chunk", "exists", "reopen"])
                if how == "reopen":
                    d = core.open_file(path, s, rr.choice(["r", "r", "a", "r+"]))["d"]
                    if d.shape != tuple(s.shape) or d.chunks != tuple(s.chunks) or d.dtype != np.dtype(s.dtype):
                        raise Bad("metadata", "%s opened as %s %s %s" % (s.desc(), d.shape, d.chunks, d.dtype))
                    me.e("reopened")
                    continue
                d.n_threads = rr.choice([1, 1, 3])
                k = rr.choice(hot)
                if how == "region":
                    lo, hi = core.rand_roi(cc, s.shape, s)
                else:
                    lo, hi = [z.start for z in ureg[k]], [z.stop for z in ureg[k]]
                if how in ("chunk", "exists"):
                    cid = rr.choice([q for q in cunit if cunit[q] == k])
                    part = core.chunk_region(s, cid)
                    at = tuple(slice(z.start - o.start, z.stop - o.start) for z, o in zip(part, ureg[k]))
                    a = reg.low(k)
                    me.note(how, cid)
                    try:
                        got = d.read_chunk(list(cid)) if how == "chunk" else d.chunk_exists(list(cid))
                    except Exception as e:
                        b = reg.high(k)
                        if (how == "chunk" or s.shards) and may_vanish(k, a, b, at):
                            me.e("raised_while_removed")
                            continue
                        raise Bad("read-raised", "%s of chunk %s of %s raised %r; versions %d..%d" % (how, cid, s.desc(), e, a, b))
                    b = reg.high(k)
                    if how == "exists":
                        poss = set()
                        for v in range(max(a, seen.get(cid, 0)), b + 1):
                            # (a chunk of nan fill values may be stored)
                            poss |= {False, True} if fill != fill and same(versions[k][v][at], np.full_like(versions[k][v][at], fill)) else \
                                {not bool(np.all(versions[k][v][at] == fill))}
                        me.e("existence_judged")
                        if got not in poss:
                            raise Bad("existence", "chunk %s of %s: exists %s, expected %s (versions %d..%d)" % (cid, s.desc(), got, poss, a, b))
                        continue
                    if got is None:
                        got = np.full([z.stop - z.start for z in part], fill, s.dtype)
                    else:
                        got = got[tuple(slice(0, z.stop - z.start) for z in part)]
                    feasible(me, cid, part, got, a, b, seen, "chunk read")
                    continue
                tu = [q for q in range(len(units)) if all(z.start < h and l < z.stop for z, l, h in zip(ureg[q], lo, hi))]
                low = {q: reg.low(q) for q in tu}
                me.note(how, lo, hi)
                try:
                    got = d[sl(lo, hi)]
                except Exception as e:
                    high = {q: reg.high(q) for q in tu}
                    if any(may_vanish(q, low[q], high[q]) for q in tu):
                        me.e("raised_while_removed")
                        continue
                    raise Bad("read-raised", "reading %s:%s of %s raised %r; versions %s..%s" % (lo, hi, s.desc(), e, low, high))
                high = {q: reg.high(q) for q in tu}
                me.e("region_reads")
                for cid in cunit:
                    if cunit[cid] not in low:
                        continue
                    p = tuple(slice(max(z.start, l), min(z.stop, h)) for z, l, h in zip(core.chunk_region(s, cid), lo, hi))
                    if any(z.start >= z.stop for z in p):
                        continue
                    g = got[tuple(slice(z.start - l, z.stop - l) for z, l in zip(p, lo))]
                    feasible(me, cid, p, g, low[cunit[cid]], high[cunit[cid]], seen, "region read %s:%s" % (lo, hi))
                if last:
                    break
        return f

    delay = r.choice([0, 0, 60, 300])
    c.sig = core.digest(i, s.desc(), nw, nr, delay)
    c.sample = "%s: %d units, %d writers, %d readers, delay %d" % (s.desc(), len(units), nw, nr, delay)
    run_roles(c, reg, [Role("writer %d" % w, writer(w)) for w in range(nw)], [Role("reader %d" % x, reader(x)) for x in range(nr)], path, delay, True)
    d = core.open_file(path, s, "r")["d"]
    out = d[...]
    for k, rg in enumerate(ureg):
        if not same(out[rg], versions[k][-1]):
            c.fail("final-content", "unit %d of %s: %s" % (k, s.desc(), core.first_diff(out[rg], versions[k][-1])))
    c.ev("units_final", len(units))
    left = [p for p in core.snapshot(path) if "tmp" in os.path.basename(p)]
    if left:
        c.fail("leftovers", "%s: %s" % (s.desc(), left[:4]))


# ---------------------------------------------------------------------------------------------
# nodes and attributes

NAMES = ["a", "ab", "abc", "a.b", "b", "b2", "c", "0", "00", "data", "data2", "x", "x y", "d", "d_", "e0"]


def nodes(c, i):
    r = c.rnd
    fmt = core.FORMATS[i // 3 % 3]
    nw, nr = r.choice([2, 2, 3]), r.choice([1, 1, 2])
    path = os.path.join(c.dir, "m" + (".n5" if fmt == "n5" else ".zarr"))
    base = core.rand_spec(c, fmt=fmt, maxel=100, key="stable")
    fl = core.open_file(path, base)
    core.create_py(fl, base)
    data = core.rand_data(c, base.shape, base.dtype, "full")
    fl["stable"][...] = data
    fl.create_group("g")
    fl.create_group("g/h")
    # targets: names (in the groups) and attribute documents, each of one writer
    targets, owner = [], []
    names = list(NAMES)
    r.shuffle(names)
    for k, n in enumerate(names[:r.randint(4, 10)]):
        targets.append(("node", r.choice(["", "g", "g/h"]), n))
        owner.append(k % nw)
    for n in ["", "g", "g/h", "stable"]:
        targets.append(("attrs", n, ""))
        owner.append(r.randrange(nw))
    T = len(targets)
    states = [[None] if t[0] == "node" else [dict(fl.attrs) if t[1] == "" else {}] for t in targets]
    nops = r.choice([10, 30, 60])
    plans = []
    for w in range(nw):
        own = [k for k in range(T) if owner[k] == w]
        ops = []
        for _ in range(nops if own else 0):
            k = r.choice(own)
            kind, g, n = targets[k]
            cur = states[k][-1]
            if kind == "attrs":
                a = dict(cur)
                mine = [x for x in a if x.startswith("k")]
                if mine and r.random() < .3:
                    q = r.choice(mine)
                    del a[q]
                    op = ("del", q, None)
                elif r.random() < .2:
                    u = {"k%d" % r.randrange(4): r.choice([r.random(), "v" * r.randint(0, 200)]), "k9": r.randrange(1000)}
                    a.update(u)
                    op = ("update", u, None)
                else:
                    q, v = "k%d" % r.randrange(5), r.choice([r.random(), "v" * r.choice([1, 10, 5000, 70000]), [1, {"x": r.randrange(1000)}], None])
                    a[q] = v
                    op = ("set", q, v)
                states[k].append(a)
            elif cur is not None:
                op = ("delete",)
                states[k].append(None)
            else:
                if r.random() < .5:
                    op = ("group", r.choice([True, False]))
                    states[k].append("group")
                else:
                    s = core.rand_spec(c, fmt=fmt, maxel=60, key=n)
                    s.sep = base.sep if fmt == "zarr2" else s.sep
                    op = ("dataset", s)
                    states[k].append(s)
            ops.append((k, len(states[k]) - 1, op))
        plans.append(ops)
    parties = nw + nr
    reg = Registers(T, parties)

    def at(root, g):
        return root[g] if g else root

    def writer(w):
        def f(me):
            rr = random.Random(i * 1000 + w)
            root = core.open_file(path, base, rr.choice(["a", "r+"]))
            for k, v, op in plans[w]:
                kind, g, n = targets[k]
                if rr.random() < .1:
                    root = core.open_file(path, base, rr.choice(["a", "r+"]))
                o = at(root, g)
                me.note(op[0], g, n)
                reg.begin(k, v)
                if op[0] == "set":
                    o.attrs[op[1]] = op[2]
                elif op[0] == "del":
                    del o.attrs[op[1]]
                elif op[0] == "update":
                    o.attrs.update(op[1])
                elif op[0] == "delete":
                    del o[n]
                elif op[0] == "group":
                    (o.require_group if op[1] else o.create_group)(n)
                else:
                    s = op[1]
                    d = core.create_py(o, s)
                    x = np.full(s.shape, 3, s.dtype)
                    d[...] = x
                reg.end(k, v)
                me.e("operations")
                me.e("op_" + op[0])
                # own results are visible
                if kind == "node":
                    if (n in o) != (states[k][v] is not None):
                        raise Bad("own-operation", "after %s of %r in %r: %s" % (op[0], n, g, n in o))
        return f

    def observer(x):
        def f(me):
            rr = random.Random(i * 1000 + 500 + x)
            root = core.open_file(path, base, "r")
            while True:
                last = writers_done(reg, nw, parties)
                how = rr.choice(["in", "keys", "keys", "open", "open", "attrs", "attrs", "attrs", "stable", "reopen"])
                low = [reg.low(k) for k in range(T)]
                g = rr.choice(["", "g", "g/h"])
                me.note(how, g)
                try:
                    if how == "reopen":
                        root = core.open_file(path, base, rr.choice(["r", "a", "r+"]))
                        me.e("reopened")
                        continue
                    if how == "stable":
                        d = root["stable"]
                        if d.shape != tuple(base.shape) or d.chunks != tuple(base.chunks) or not same(d[...], data):
                            raise Bad("stable-dataset", "%s: %s" % (base.desc(), core.first_diff(d[...], data)))
                        me.e("stable_reads")
                        if last:
                            break
                        continue
                    if how == "attrs":
                        k = rr.choice([k for k in range(T) if targets[k][0] == "attrs"])
                        me.note(targets[k])
                        low = reg.low(k)
                        attrs = at(root, targets[k][1]).attrs
                        # (one document is read by each of these)
                        q = rr.choice(["k0", "k1", "k2", "k3", "k4", "k9"])
                        w = rr.choice(["get", "get", "in", "keys", "len"])
                        f = {"get": lambda a: a.get(q, "-absent-"), "in": lambda a: q in a, "keys": lambda a: sorted(a), "len": lambda a: len(a)}[w]
                        got = f(attrs)
                        high = reg.high(k)
                        me.e("attributes_judged")
                        poss = [f(states[k][v]) for v in range(low, high + 1)]
                        if high > low:
                            me.e("attributes_judged_during_writes")
                        if got not in poss:
                            raise Bad("attributes", "%s %s of %r: %s, possible %s" % (w, q, targets[k][1], json.dumps(got)[:300], json.dumps(poss)[:600]))
                        continue
                    o = at(root, g)
                    cand = [k for k in range(T) if targets[k][0] == "node" and targets[k][1] == g]
                    if how == "keys":
                        got = list(o.keys())
                        high = [reg.high(k) for k in range(T)]
                        fixed = {"": ["stable", "g"], "g": ["h"], "g/h": []}[g]
                        must = fixed + [targets[k][2] for k in cand if all(states[k][v] is not None for v in range(low[k], high[k] + 1))]
                        never = [targets[k][2] for k in cand if low[k] == high[k] and states[k][low[k]] is None]
                        known = fixed + [targets[k][2] for k in cand]
                        me.e("listings_judged")
                        if any(high[k] > low[k] for k in cand):
                            me.e("listings_judged_during_writes")
                        miss = [n for n in must if n not in got]
                        more = [n for n in got if n in never or n not in known]
                        if miss or more or len(set(got)) != len(got):
                            raise Bad("listing", "keys of %r: %s; missing %s, unexpected %s" % (g, got, miss, more))
                        continue
                    if not cand:
                        continue
                    k = rr.choice(cand)
                    n = targets[k][2]
                    low = reg.low(k)
                    got, err = None, None
                    try:
                        got = n in o if how == "in" else o[n]
                    except Exception as e:
                        err = e
                    high = reg.high(k)
                    me.e("nodes_judged")
                    if high > low:
                        me.e("nodes_in_change")
                        continue
                    st = states[k][low]
                    if how == "in":
                        if err is not None or got != (st is not None):
                            raise Bad("membership", "%r in %r: %s %r, expected %s" % (n, g, got, err, st is not None))
                    elif st is None:
                        if err is None:
                            raise Bad("opened-missing", "%r in %r opened as %r" % (n, g, got))
                    elif err is not None:
                        raise Bad("not-opened", "%r in %r: %r" % (n, g, err))
                    elif st == "group":
                        if hasattr(got, "shape"):
                            raise Bad("kind", "%r in %r opened as %r" % (n, g, got))
                    else:
                        if not hasattr(got, "shape") or got.shape != tuple(st.shape) or got.dtype != np.dtype(st.dtype):
                            raise Bad("kind", "%r in %r opened as %r, expected %s" % (n, g, got, st.desc()))
                        try:
                            y = got[...]
                        except Exception as e:
                            if reg.high(k) > low:
                                continue
                            raise
                        if reg.high(k) == low and not same(y, np.full(st.shape, 3, st.dtype)):
                            raise Bad("node-data", "%r in %r (%s): %s" % (n, g, st.desc(), core.first_diff(y, np.full(st.shape, 3, st.dtype))))
                        me.e("datasets_read")
                except Bad:
                    raise
                except Exception as e:
                    raise Bad("observer-raised:" + how, "%s of %r raised %r\n%s" % (how, g, e, traceback.format_exc()[-1200:]))
        return f

    delay = r.choice([0, 0, 60, 300])
    c.sig = core.digest(i, fmt, nw, nr, delay, targets)
    c.sample = "%s: %d targets, %d writers, %d observers, delay %d" % (fmt, T, nw, nr, delay)
    run_roles(c, reg, [Role("writer %d" % w, writer(w)) for w in range(nw)], [Role("observer %d" % x, observer(x)) for x in range(nr)], path, delay, True)
    root = core.open_file(path, base, "r")
    for k, (kind, g, n) in enumerate(targets):
        o = at(root, g)
        st = states[k][-1]
        if kind == "attrs":
            if dict(o.attrs.items()) != st:
                c.fail("final-attributes", "of %r: %s, expected %s" % (g, json.dumps(dict(o.attrs.items()))[:300], json.dumps(st)[:300]))
        elif (n in o) != (st is not None):
            c.fail("final-nodes", "%r in %r: %s, expected %s" % (n, g, n in o, st))
    c.ev("targets_final", T)
    left = [p for p in core.snapshot(path) if ".tmp" in os.path.basename(p)]
    if left:
        c.fail("leftovers", str(left[:4]))
