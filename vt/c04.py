"""shards: other inner chunks survive, every shard file is valid after every operation, concurrent writers of one handle"""
import os, threading
import numpy as np
from . import core, decode, encode
from .session import Session
from .core import same, first_diff


def validate(c, se, exact=True):
    """every shard file is valid and holds exactly the inner chunks with content; values as in the model"""
    s = se.s
    m = decode.Meta()
    m.dir, m.shape, m.chunks, m.shards, m.dt, m.codec, m.fmt = se.dspath, s.shape, s.chunks, s.shards, np.dtype(s.dtype), s.comp, "zarr3"
    m.sep, m.enc, m.fill, m.grid = s.sep, s.enc, s.fillval(), s.grid
    try:
        a, st = decode.load(m, False)
    except decode.FormatError as e:
        c.fail("invalid-shard", "%s (%s)" % (e, s.desc()))
    except Exception as e:
        c.fail("invalid-shard", "%r (%s)" % (e, s.desc()))
    c.ev("shard_validations")
    c.ev("inner_chunks_decoded", len(st))
    if not same(a, se.model):
        c.fail("shard-values", "%s (%s)" % (first_diff(a, se.model), s.desc()))
    fillnan = np.dtype(s.dtype).kind in "fc" and np.isnan(s.fillval())
    for cid in core.all_chunks(s):
        x = se.chunk_model(cid)
        if fillnan:
            empty = not se.written[cid] and bool(np.isnan(x).all())
        else:
            empty = bool((x == s.fillval()).all())
        if exact and empty and cid in st:
            c.fail("empty-chunk-stored", "inner chunk %s holds only the fill value but has an index entry (%s)" % (cid, s.desc()))
        if not empty and not (fillnan and np.isnan(x).all()) and cid not in st:
            c.fail("chunk-not-stored", "inner chunk %s (%s)" % (cid, s.desc()))
    return st


def many_slots(c, s):
    """hundreds to thousands of inner chunks per shard: the index has many kilobytes"""
    r = c.rnd
    nd = r.choice([1, 2, 3])
    per = {1: r.choice([255, 256, 257, 1000, 4096]), 2: r.choice([16, 31, 64]), 3: r.choice([6, 10, 16])}[nd]
    s.chunks = tuple(r.choice([1, 1, 2, 3]) for _ in range(nd))
    s.shards = tuple(n * per for n in s.chunks)
    s.shape = tuple(r.choice([n, n + r.randint(1, n // 3), n - 1]) if d == 0 else n for d, n in enumerate(s.shards))


def case(c, i):
    r = c.rnd
    if i % 4 == 3:
        return concurrent(c, i)
    while True:
        s = core.rand_spec(c, fmt="zarr3", sharded=True, maxel=r.choice([300, 1500, 4000]), minchunks=2)
        if i % 60 == 1:
            many_slots(c, s)
            c.ev("many_slot_datasets")
            break
        if i % 60 == 2:
            s = core.large_spec(c, fmt="zarr3", sharded=True)
            c.ev("large_datasets")
            break
        if int(np.prod([a // b for a, b in zip(s.shards, s.chunks)])) > 1:
            break
    se = Session(c, s, n_threads=r.choice([1, 1, 2, 4, 8]))
    c.sig, c.sample = core.digest(s.desc(), i), s.desc()
    exact = True
    if r.random() < .2:
        # start from shards made by another writer (any order, unused bytes)
        import shutil
        shutil.rmtree(se.dspath)
        s.pad_garbage = False
        d = os.path.join(c.dir, "foreign")
        se.model, st = encode.write(c, d, s)
        shutil.copytree(os.path.join(d, s.key), se.dspath)
        se.reopen()
        exact = False      # the foreign writer may have stored all-fill chunks
        for cid in st:
            se.written[cid] = True
        c.ev("foreign_starts")
    validate(c, se, exact)
    for k in range(r.randint(4, 10) if i % 60 not in (1, 2) else 3):
        m = r.random()
        cid = tuple(r.randrange(g) for g in s.grid)
        reg = core.chunk_region(s, cid)
        shp = [x.stop - x.start for x in reg]
        if m < .3:
            data = core.rand_data(c, shp, s.dtype) if r.random() < .65 else np.full(shp, s.fillval(), s.dtype)
            se.write_chunk(cid, data, r.choice(["py", "cpp"]))
        elif m < .45:
            se.cpp.remove_chunk(list(cid))
            se.model[reg] = s.fillval()
            se.written[cid] = False
            c.note("remove", cid)
            c.ev("chunk_removals")
        elif m < .55:
            # clear a region
            lo, hi = core.rand_roi(c, s.shape, s)
            if r.random() < .4:
                lo, hi = (0,) * s.ndim, s.shape
            se.write_scalar(lo, hi, s.fillval(), r.choice(["py", "cpp"]))
            c.ev("clears")
        elif m < .65:
            # the shard-aligned region of one shard
            sid = se.shard_of(cid)
            lo = tuple(a * b for a, b in zip(sid, s.shards))
            hi = tuple(min(a + b, n) for a, b, n in zip(lo, s.shards, s.shape))
            se.write(lo, hi, core.rand_data(c, [b - a for a, b in zip(lo, hi)], s.dtype), "cview")
        else:
            se.random_write()
        validate(c, se, exact)
        se.check_random()
        if r.random() < .2:
            se.reopen()
        if r.random() < .2:
            se.threads(r.choice([1, 2, 4, 8]))
    se.reopen()
    se.check()
    # reading every inner chunk through the chunk interface
    for cid in core.all_chunks(s):
        if se.cpp.chunk_exists(list(cid)):
            out = np.empty(s.chunks, s.dtype)
            core.fn("read_chunk", s.dtype)(se.cpp, out, list(cid))
            reg = core.chunk_region(s, cid)
            if not same(out[tuple(slice(0, x.stop - x.start) for x in reg)], se.model[reg]):
                c.fail("chunk-read", "%s %s" % (cid, s.desc()))


def concurrent(c, i):
    """several threads write disjoint inner chunks of the same shards through one handle while others read finished ones"""
    r = c.rnd
    s = core.rand_spec(c, fmt="zarr3", sharded=True, ndim=r.choice([1, 2, 2, 3]), maxel=4000, minchunks=12)
    s.shards = tuple(ch * r.choice([2, 3, 4]) for ch in s.chunks)
    se = Session(c, s, n_threads=1)
    c.sig, c.sample = core.digest("conc", s.desc(), i), s.desc()
    lo, hi = (0,) * s.ndim, s.shape
    se.write(lo, hi, core.rand_data(c, s.shape, s.dtype, "full"), "cview")
    if not s.shards or not se.pyio:
        return
    ids = core.all_chunks(s)
    r.shuffle(ids)
    nth = r.choice([2, 3, 4, 6])
    still = ids[:len(ids) // 4]           # nobody writes these
    work = ids[len(ids) // 4:]
    plan = [[] for _ in range(nth)]
    new = se.model.copy()
    for k, cid in enumerate(work):
        seq = []
        for _ in range(r.choice([1, 1, 2, 3])):
            reg = core.chunk_region(s, cid)
            shp = [x.stop - x.start for x in reg]
            kind = r.choice(["py", "py", "chunk", "scalar", "clear"])
            data = core.rand_data(c, shp, s.dtype, "full")
            if kind == "scalar":
                data[...] = data.flat[0]
            if kind == "clear":
                data[...] = s.fillval()
            seq.append((kind, cid, reg, data))
            new[reg] = data
        plan[k % nth].append(seq)
    errs, bar = [], threading.Barrier(nth + 1)
    stop = threading.Event()

    def writer(t):
        try:
            bar.wait()
            for seq in plan[t]:
                for kind, cid, reg, data in seq:
                    if kind == "py":
                        se.ds[reg] = data
                    elif kind == "chunk":
                        se.ds.write_chunk(list(cid), se.chunk_payload(cid, data))
                    else:
                        se.ds[reg] = data.flat[0].item()
        except Exception as e:
            errs.append(repr(e))

    def reader():
        rr = np.random.default_rng(i)
        try:
            bar.wait()
            n = 0
            while (not stop.is_set() or n < 5) and still:
                cid = still[int(rr.integers(len(still)))]
                reg = core.chunk_region(s, cid)
                got = se.ds[reg]
                n += 1
                if not same(got, se.model[reg]):
                    errs.append("reader of the untouched chunk %s saw %s" % (cid, first_diff(got, se.model[reg])))
                    return
            c.ev("concurrent_reads", n)
        except Exception as e:
            errs.append("reader: " + repr(e))
    ths = [threading.Thread(target=writer, args=(t,)) for t in range(nth)] + [threading.Thread(target=reader)]
    for t in ths:
        t.start()
    for t in ths[:-1]:
        t.join()
    stop.set()
    ths[-1].join()
    if errs:
        c.fail("concurrent-error", "%s (%s)" % (errs[:3], s.desc()))
    se.model = new
    c.ev("concurrent_writes", sum(len(q) for p in plan for q in p))
    c.ev("concurrent_rounds")
    validate(c, se)
    se.check(how="getitem", key="concurrent-lost-update")
    se.reopen()
    se.check(how="cview", key="concurrent-lost-update")
