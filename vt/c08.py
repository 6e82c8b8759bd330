"""thread pool and parallel loops: native monitors under ThreadSanitizer/ASan; iteration helpers and failing parallel I/O"""
import collections, os, time
import numpy as np
from . import core
from .c07 import run_bin
from .core import same
from .session import Session


def case(c, i):
    r = c.rnd
    k = i % 8
    if k == 6:
        return visits(c, i)
    if k == 7:
        return failing(c, i)
    sc = [0, 0, 0, 1, 2, 3][k]
    if sc in (1, 2, 3) and i // 8 % 2:
        sc = sc % 3 + 1
    c.sig, c.sample = core.digest(sc, i), "pool scenario %d" % sc
    for b in ("pool", "pool_asan"):
        run_bin(c, b, [sc, r.getrandbits(40)], b, limit=60)
        c.ev("processes")


def nthreads():
    return len(os.listdir("/proc/self/task"))


def leaked(t0):
    """a joined thread may linger in /proc for a moment"""
    for _ in range(100):
        if nthreads() <= t0:
            return False
        time.sleep(.05)
    return True


def check_tids(c, ev, nt, what):
    actual = nt if nt > 0 else (1 if nt == 0 else None)
    for e in ev:
        if e[0] < 0 or (actual is not None and e[0] >= max(1, actual)):
            c.fail("visit-thread-id", "%s nt=%d id %d" % (what, nt, e[0]))


def visits(c, i):
    """every chunk / block exactly once"""
    r = c.rnd
    s = core.rand_spec(c, cpp=True, maxel=r.choice([60, 600, 4000]), minchunks=r.choice([1, 8, 40]))
    s.sep = "."
    path = os.path.join(c.dir, "v" + s.file_ext())
    core.open_file(path, s)
    core.create_cpp(path, s)
    import z5vt
    ds = z5vt.open(path, s.key, r.choice(["r", "a"]))
    c.sig, c.sample = core.digest("v", s.desc(), i), "visits " + s.desc()
    c.nontrivial = int(np.prod(s.grid)) > 1
    t0 = nthreads()
    for nt in (1, r.choice([0, 2, 3]), r.choice([4, 8, 16, -1])):
        ev = ds.visit_chunks(nt)
        exp = collections.Counter(core.all_chunks(s))
        got = collections.Counter(tuple(e[1]) for e in ev)
        if got != exp:
            c.fail("visit-chunks", "nt=%d missing %s extra %s (%s)" % (nt, list((exp - got))[:4], list((got - exp))[:4], s.desc()))
        check_tids(c, ev, nt, "chunks")
        c.ev("visits", len(ev))
        lo, hi = core.rand_roi(c, s.shape, s)
        ev = ds.visit_chunks_roi(list(lo), list(hi), nt)
        exp = collections.Counter(q for q in core.all_chunks(s) if all(x * ch < h and (x + 1) * ch > l for x, ch, l, h in zip(q, s.chunks, lo, hi)))
        got = collections.Counter(tuple(e[1]) for e in ev)
        if got != exp:
            c.fail("visit-chunks-roi", "nt=%d %s:%s missing %s extra %s (%s)" % (nt, lo, hi, list((exp - got))[:4], list((got - exp))[:4], s.desc()))
        check_tids(c, ev, nt, "roi")
        bs = [r.randint(1, max(1, n + 2)) for n in s.shape]
        if int(np.prod([-(-n // b) for n, b in zip(s.shape, bs)])) > 20000:
            continue
        blocks = {}
        for q in np.ndindex(*[-(-n // b) for n, b in zip(s.shape, bs)]):
            b0 = tuple(x * b for x, b in zip(q, bs))
            blocks[b0] = tuple(min(b, n - x) for x, b, n in zip(b0, bs, s.shape))
        ev = ds.visit_blocks(bs, nt)
        got = collections.Counter((tuple(e[1]), tuple(e[2])) for e in ev)
        exp = collections.Counter(blocks.items())
        if got != exp:
            c.fail("visit-blocks", "nt=%d blocks %s missing %s extra %s (%s)" % (nt, bs, list((exp - got))[:4], list((got - exp))[:4], s.desc()))
        check_tids(c, ev, nt, "blocks")
        ev = ds.visit_blocks_roi(bs, list(lo), list(hi), nt)
        got = collections.Counter((tuple(e[1]), tuple(e[2])) for e in ev)
        exp = collections.Counter((b, q) for b, q in blocks.items() if all(x < h and x + n > l for x, n, l, h in zip(b, q, lo, hi)))
        if got != exp:
            c.fail("visit-blocks-roi", "nt=%d blocks %s %s:%s missing %s extra %s (%s)" % (nt, bs, lo, hi, list((exp - got))[:4], list((got - exp))[:4], s.desc()))
        c.ev("visits", len(ev))
        c.ev("visit_rounds")
    if leaked(t0):
        c.fail("thread-leak", "%d threads before, %d after (%s)" % (t0, nthreads(), s.desc()))


def failing(c, i):
    """parallel reads and writes over damaged chunks raise, finish, leak no thread, and the object stays usable"""
    r = c.rnd
    f = core.FORMATS[i // 8 % 3]
    s = core.rand_spec(c, fmt=f, dtype=r.choice(core.PYTYPES), sharded=(r.random() < .4) if f == "zarr3" else None, maxel=3000, minchunks=4, comp=r.choice(["raw", "gzip"]))
    se = Session(c, s, n_threads=1)
    data = core.rand_data(c, s.shape, s.dtype, "full")
    data[data == s.fillval()] = 1
    lo, hi = (0,) * s.ndim, s.shape
    se.write(lo, hi, data, "cview")
    c.sig, c.sample = core.digest("f", s.desc(), i), "failing parallel I/O " + s.desc()
    ids = [q for q in core.all_chunks(s)]
    hit = r.sample(ids, max(1, min(len(ids) - 1, r.choice([1, 1, 2, len(ids) // 2]))))
    files = sorted({se.store_file(q) for q in hit})
    files = [p for p in files if os.path.exists(p)]
    if not files:
        return
    for p in files:
        n = os.path.getsize(p)
        with open(p, "r+b") as h:
            h.truncate(max(0, n - r.choice([1, 2, 3]) if n > 3 else 0))
    damaged = {q for q in ids if se.store_file(q) in files}
    good = [q for q in ids if q not in damaged]
    keep = {p: open(p, "rb").read() for p in files}
    t0 = nthreads()
    for nt in (2, r.choice([3, 4, 8])):
        se.threads(nt)
        for how in ("getitem", "cview"):
            e = core.raises(lambda: se.read(lo, hi, how))
            if e is None:
                c.fail("parallel-error-lost", "reading %d damaged of %d chunks with %d threads raised nothing (%s)" % (len(damaged), len(ids), nt, s.desc()))
            c.ev("failing_loops")
        # the object stays usable
        for q in r.sample(good, min(4, len(good))):
            reg = core.chunk_region(s, q)
            se.check([x.start for x in reg], [x.stop for x in reg], key="unusable-after-error")
        # partial writes into damaged chunks raise, too
        q = r.choice(sorted(damaged))
        reg = core.chunk_region(s, q)
        n0 = reg[0].stop - reg[0].start
        if n0 > 1 or any(x.stop - x.start > 1 for x in reg):
            a = [x.start for x in reg]
            d = next(k for k, x in enumerate(reg) if x.stop - x.start > 1)
            b = [x.stop - (1 if k == d else 0) for k, x in enumerate(reg)]
            v = core.rand_data(c, [y - x for x, y in zip(a, b)], s.dtype, "full")
            if core.raises(lambda: core.fn("write_view", s.dtype)(se.cpp, v, a, nt)) is None:
                c.fail("parallel-error-lost", "partial write into damaged chunk %s with %d threads (%s)" % (q, nt, s.desc()))
            c.ev("failing_loops")
            if any(open(p, "rb").read() != keep[p] for p in files):
                c.fail("failed-write-changed", s.desc())
    if leaked(t0):
        c.fail("thread-leak", "%d threads before, %d after (%s)" % (t0, nthreads(), s.desc()))
    # whole-chunk writes repair, afterwards everything reads as it should
    for p in files:
        os.unlink(p)
    se.write(lo, hi, data, "cview")
    se.check(key="repair")
