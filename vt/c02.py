"""fill values, elision and existence"""
import itertools, os
import numpy as np
from . import core, decode
from .session import Session
from .core import same, first_diff

FILLS = {"i": lambda d: [0, 1, -1, 7, max(np.iinfo(d).min, -2**53), min(np.iinfo(d).max, 2**53)],
         "u": lambda d: [0, 1, 7, min(np.iinfo(d).max, 2**53), min(np.iinfo(d).max, 2**53) - 1],
         "f": lambda d: [0.0, 1.5, -2.25, 0.1, 1e30, float("nan"), float("inf"), float("-inf"), float(np.finfo(d).max), float(np.finfo(d).tiny)],
         "c": lambda d: [0.0, 1.0, -2.5]}


def is_fill(s, a):
    """-> (equals the fill value everywhere, elision is demanded)"""
    f = s.fillval()
    if np.dtype(s.dtype).kind in "fc" and np.isnan(f):
        return bool(np.isnan(a).all())
    return bool((a == f).all())


def stored_ids(se):
    """chunk ids present on disk, found without z5"""
    s = se.s
    if not s.shards:
        return {cid for cid in core.all_chunks(s) if os.path.isfile(se.chunk_file(cid))}
    per = tuple(a // b for a, b in zip(s.shards, s.chunks))
    out = set()
    sg = tuple(-(-x // y) for x, y in zip(s.shape, s.shards))
    for sid in np.ndindex(*sg):
        p = se.chunk_file(sid)
        if not os.path.isfile(p):
            continue
        ent = decode.parse_shard(open(p, "rb").read(), int(np.prod(per)))
        for k, rel in enumerate(np.ndindex(*per)):
            if ent[k] is not None:
                out.add(tuple(a * n + b for a, n, b in zip(sid, per, rel)))
    return out


def check_existence(c, se, known_absent=()):
    s = se.s
    have = stored_ids(se)
    for cid in core.all_chunks(s):
        q = se.cpp.chunk_exists(list(cid))
        c.ev("existence_queries")
        if q != (cid in have):
            c.fail("existence-query", "chunkExists(%s)=%s but on disk: %s (%s)" % (cid, q, cid in have, s.desc()))
        if se.ds is not None and not s.shards and hasattr(se.ds, "chunk_exists"):
            if se.ds.chunk_exists(cid) != q:
                c.fail("existence-query", "z5py chunk_exists differs for %s" % (cid,))
        fillonly = is_fill(s, se.chunk_model(cid))
        if not fillonly and cid not in have:
            c.fail("data-chunk-missing", "chunk %s holds non-fill data but is not stored (%s)" % (cid, s.desc()))
        if not se.written[cid] and cid in have:
            c.fail("unwritten-chunk-stored", "chunk %s was never written but is stored (%s)" % (cid, s.desc()))
        if cid in known_absent and cid in have:
            c.fail("fill-chunk-not-removed", "chunk %s was overwritten with the fill value but is still stored (%s)" % (cid, s.desc()))
        c.ev("chunks_absent" if cid not in have else "chunks_present")


def case(c, i):
    r = c.rnd
    if i % 40 == 39:
        return foreign_fill(c, i)
    if i % 97 == 5:
        return big_int_fill(c)
    combos = [(f, d) for f in core.FORMATS for d in (core.DTYPES if f == "zarr2" else core.PYTYPES)]
    f, d = combos[i % len(combos)]
    s = core.rand_spec(c, fmt=f, dtype=d, cpp=d not in core.PYTYPES or r.random() < 0.3, maxel=1500, minchunks=2)
    if f != "n5":
        s.fill = r.choice(FILLS[np.dtype(d).kind](d))
    elif r.random() < 0.3:
        s.fill = 5      # N5 has no fill value: must be ignored
    via = None
    se = Session(c, s, n_threads=r.choice([1, 1, 3, 8]), via=via)
    c.sig = core.digest(s.desc(), i)
    c.nontrivial = max(s.grid) > 1
    c.sample = s.desc()
    se.check(key="fresh-not-fill")
    check_existence(c, se)
    se.check_random()
    fillnan = np.dtype(d).kind in "fc" and np.isnan(se.s.fillval())
    for k in range(r.randint(3, 7)):
        absent = set()
        m = r.random()
        cid = tuple(r.randrange(g) for g in s.grid)
        reg = core.chunk_region(s, cid)
        lo, hi = tuple(x.start for x in reg), tuple(x.stop for x in reg)
        shp = [b - a for a, b in zip(lo, hi)]
        if m < 0.3:
            # partial write into (usually fresh) chunks
            plo, phi = [], []
            for a, b in zip(lo, hi):
                x = r.randint(a, b - 1)
                y = r.randint(x + 1, b)
                plo.append(x)
                phi.append(y)
            se.write(plo, phi, core.rand_data(c, [b - a for a, b in zip(plo, phi)], d), "setitem" if se.pyio and r.random() < .5 else "cview")
            c.ev("partial_writes")
        elif m < 0.6:
            # overwrite one chunk by the fill value, in one of the ways the API offers
            data = np.full(shp, s.fillval(), dtype=d)
            how = r.choice(["chunk", "scalar", "region", "chunk"])
            if how == "chunk":
                se.write_chunk(cid, data, "py" if se.pyio and r.random() < .5 else "cpp")
            elif how == "scalar":
                se.write_scalar(lo, hi, s.fillval(), "py" if se.pyio and r.random() < .5 else "cpp")
            else:
                se.write(lo, hi, data, "setitem" if se.pyio and r.random() < .5 else "cview")
            if not fillnan:
                absent.add(cid)
            c.ev("fill_overwrites")
        elif m < 0.75:
            # fill in one region spanning several chunks
            rlo, rhi = core.rand_roi(c, s.shape, s)
            if r.random() < .5:
                se.write_scalar(rlo, rhi, s.fillval(), "py" if se.pyio and r.random() < .5 else "cpp")
            else:
                se.write(rlo, rhi, np.full([b - a for a, b in zip(rlo, rhi)], s.fillval(), d), "cview")
            if not fillnan:
                for q in core.all_chunks(s):
                    reg2 = core.chunk_region(s, q)
                    if all(x.start >= a and x.stop <= b for x, a, b in zip(reg2, rlo, rhi)):
                        absent.add(q)
            c.ev("fill_overwrites")
        elif m < 0.85:
            # a chunk that is fill everywhere but in one position
            data = np.full(shp, s.fillval(), dtype=d)
            pos = tuple(r.choice([0, n - 1, r.randrange(n)]) for n in shp)
            data[pos] = core.rand_data(c, (1,), d, "full")[0]
            if r.random() < .5:
                se.write_chunk(cid, data, "cpp")
            else:
                se.write(lo, hi, data, "cview")
            c.ev("almost_fill_chunks")
        else:
            se.random_write()
        check_existence(c, se, absent)
        se.check_random()
        se.check()
        if r.random() < .25:
            # deleting the stored chunk makes the region read as fill again
            p = [q for q in core.all_chunks(s) if se.cpp.chunk_exists(list(q))]
            if p and s.fmt != "zarr3":
                q = r.choice(p)
                se.cpp.remove_chunk(list(q))
                se.model[core.chunk_region(s, q)] = s.fillval()
                c.ev("chunks_removed")
                se.check()
                check_existence(c, se, {q})
        if r.random() < .2:
            se.reopen()
    se.reopen()
    se.check()
    check_existence(c, se)


def foreign_fill(c, i):
    """fill values written by zarr-python, in every spelling it uses"""
    import zarr, warnings
    warnings.simplefilter("ignore")
    r = c.rnd
    zf = r.choice([2, 3])
    for d in core.PYTYPES:
        for k, fill in enumerate(FILLS[np.dtype(d).kind](d)):
            p = os.path.join(c.dir, "f%s%d.zarr" % (d, k))
            zarr.open_group(p, mode="w", zarr_format=zf)
            z = zarr.create_array(p, name="a", shape=(5, 7), chunks=(2, 3), dtype=d, fill_value=np.array([fill]).astype(d)[0].item(), zarr_format=zf)
            z[3, 4] = 1
            exp = z[...]
            f = core.open_file(p, "zarr%d" % zf, "r")
            got = f["a"][:]
            c.ev("foreign_fills")
            c.ev("elements_compared", 35)
            if not same(got, exp):
                c.fail("foreign-fill", "zarr v%d %s fill %r: %s" % (zf, d, fill, first_diff(got, exp)))
    c.sig = core.digest("foreign", zf, i)


def big_int_fill(c):
    """known finding: a 64 bit integer fill value is stored as a double"""
    for fmt in ("zarr2", "zarr3"):
        p = os.path.join(c.dir, fmt + ".zarr")
        f = core.open_file(p, fmt)
        v = 2 ** 53 + 1
        ds = f.create_dataset("d", shape=(4,), chunks=(2,), dtype="int64", fillvalue=v)
        if int(ds[:][0]) != v:
            c.sig = core.digest("bigfill")
            c.fail("int64-fill-beyond-2^53:write", "%s: fill %d reads as %d" % (fmt, v, int(ds[:][0])))
