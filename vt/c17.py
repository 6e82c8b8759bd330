"""chunk geometry against arbitrary precision integers"""
import itertools, os
import numpy as np
from . import core
from .core import fn, same

TOP = 2 ** 63 - 1


def axis(r):
    """(length, block length) of one axis, small to 2^63-1, biased to divisible / off by one / powers of two"""
    k = r.random()
    if k < .45:
        n = r.randint(1, 40)
    elif k < .6:
        n = r.randint(1, 5000)
    else:
        n = 2 ** r.choice([16, 31, 32, 33, 40, 52, 53, 62]) + r.choice([-1, 0, 1, r.randint(0, 1000)])
        if k > .9:
            n = r.randint(2 ** 31, TOP)
        if k > .97:
            n = TOP - r.randint(0, 3)
    k = r.random()
    if k < .1:
        b = n
    elif k < .2:
        b = 1
    elif k < .3:
        b = min(TOP, n + r.randint(1, 5))
    elif k < .6:
        b = max(1, n // r.randint(1, 12) + r.choice([-1, 0, 0, 1]))
    else:
        b = min(n, r.choice([r.randint(1, 64), 2 ** r.randint(0, 34), r.randint(1, n)]))
    return n, max(1, min(b, TOP))


def roi_axis(r, n, b, maxblocks):
    """begin, length of a region in an axis that overlaps at most maxblocks blocks"""
    g = -(-n // b)
    first = r.choice([0, g - 1, r.randrange(g), max(0, g - 2)])
    last = min(g - 1, first + r.randrange(maxblocks))
    lo = first * b
    hi = min(n, (last + 1) * b)
    k = r.random()
    if k < .7:
        lo = min(n - 1, r.choice([lo, lo + 1, min(lo + b - 1, n - 1), r.randint(lo, min(n, lo + b) - 1)]))
        lb = last * b
        cand = [hi, hi - 1, lb + 1, lb, r.randint(lb, hi)]
        hi = min(n, max(lo + 1, r.choice(cand)))
    return lo, max(1, hi - lo)


def model_overlap(B, S, lo, shp):
    """exact overlap of every block with the region, per axis"""
    per = []
    for b, n, o, s in zip(B, S, lo, shp):
        ax = []
        for k in range(o // b, (o + s - 1) // b + 1):
            b0, b1 = k * b, min((k + 1) * b, n)
            x0, x1 = max(b0, o), min(b1, o + s)
            ax.append((k, x0 - o, x1 - x0, x0 - b0, x0 == b0 and x1 == b1))
        per.append(ax)
    return per


def check_roi(c, bl, S, B, lo, shp):
    per = model_overlap(B, S, lo, shp)
    exp = [tuple(a[0] for a in x) for x in itertools.product(*per)]
    got = [tuple(x) for x in bl.overlapping(lo, shp)]
    desc = "shape %s block %s region %s+%s" % (S, B, lo, shp)
    c.ev("regions")
    c.ev("overlaps", len(exp))
    if len(set(got)) != len(got):
        c.fail("block-repeated", desc)
    if set(got) != set(exp):
        c.fail("overlapping-set", "%s: got %s, expected %s" % (desc, got[:20], exp[:20]))
    vol = 0
    for x in itertools.product(*per):
        cid = [a[0] for a in x]
        e = (all(a[4] for a in x), [a[1] for a in x], [a[2] for a in x], [a[3] for a in x])
        comp, br, sr, bb = bl.in_roi(cid, lo, shp)
        if (comp, list(br), list(sr), list(bb)) != e:
            c.fail("overlap-geometry", "%s block %s: got %s, expected %s" % (desc, cid, (comp, list(br), list(sr), list(bb)), e))
        vol += int(np.prod([int(v) for v in sr], dtype=object))
    tot = int(np.prod([int(v) for v in shp], dtype=object))
    if vol != tot:
        c.fail("overlaps-do-not-tile", "%s: %d of %d" % (desc, vol, tot))


def check_blocks(c, bl, S, B, ids):
    G = [-(-n // b) for n, b in zip(S, B)]
    tot = 1
    for g in G:
        tot *= g
    desc = "shape %s block %s" % (S, B)
    if list(bl.per_dim) != G:
        c.fail("blocks-per-dimension", "%s: %s" % (desc, list(bl.per_dim)))
    if tot < 2 ** 64 and bl.number != tot:
        c.fail("number-of-blocks", "%s: %d, expected %d" % (desc, bl.number, tot))
    for cid in ids:
        cid = list(cid)
        if tot < 2 ** 64:
            lin = 0
            for g, k in zip(G, cid):
                lin = lin * g + k
            if bl.id(cid) != lin or list(bl.coord(lin)) != cid:
                c.fail("linear-id", "%s: block %s has id %d (expected %d), id %d is block %s" % (desc, cid, bl.id(cid), lin, lin, list(bl.coord(lin))))
        b0 = [k * b for k, b in zip(cid, B)]
        b1 = [min(k * b + b, n) for k, b, n in zip(cid, B, S)]
        shp = [y - x for x, y in zip(b0, b1)]
        for got, e in ((bl.begin_shape(cid), (b0, shp)), (bl.begin_end(cid), (b0, b1))):
            if (list(got[0]), list(got[1])) != e:
                c.fail("block-region", "%s block %s: got %s, expected %s" % (desc, cid, got, e))
        if tot < 2 ** 64:
            for got, e in ((bl.begin_shape_id(lin), (b0, shp)), (bl.begin_end_id(lin), (b0, b1))):
                if (list(got[0]), list(got[1])) != e:
                    c.fail("block-region-by-id", "%s block %d: got %s, expected %s" % (desc, lin, got, e))
        if not bl.check(cid):
            c.fail("valid-block-refused", "%s %s" % (desc, cid))
        for p in (b0, [y - 1 for y in b1], [c.rnd.randint(x, y - 1) for x, y in zip(b0, b1)]):
            if list(bl.block_of(p)) != cid:
                c.fail("block-of-coordinate", "%s: %s is in %s, expected %s" % (desc, p, list(bl.block_of(p)), cid))
        d = c.rnd.randrange(len(S))
        bad = list(cid)
        bad[d] = G[d] + c.rnd.choice([0, 1, 2 ** 31, 2 ** 32, 2 ** 62])
        if bl.check(bad) or bl.check(cid + [0]) or (len(cid) > 1 and bl.check(cid[:-1])):
            c.fail("invalid-block-accepted", "%s %s" % (desc, bad))
        c.ev("blocks")


SMALL1 = [(n, b) for n in range(1, 14) for b in range(1, 16)]


def case(c, i):
    import z5vt
    r = c.rnd
    if i < len(SMALL1):                     # every region of every small axis
        n, b = SMALL1[i]
        bl = z5vt.Blocking([n], [b])
        c.sig, c.sample = core.digest("1d", n, b), "all regions of shape %d block %d" % (n, b)
        c.nontrivial = b < n
        check_blocks(c, bl, [n], [b], [[k] for k in range(-(-n // b))])
        for lo in range(n):
            for s in range(1, n - lo + 1):
                check_roi(c, bl, [n], [b], [lo], [s])
        return
    if i % 4 == 0:
        return dataset(c, i)
    if i % 4 == 1:                          # every region of a small 2d/3d shape
        nd = r.choice([2, 2, 3])
        S = [r.randint(1, 6 if nd == 2 else 3) for _ in range(nd)]
        B = [r.randint(1, n + 1) for n in S]
        bl = z5vt.Blocking(S, B)
        c.sig, c.sample = core.digest("nd", S, B), "all regions of shape %s block %s" % (S, B)
        check_blocks(c, bl, S, B, itertools.product(*[range(-(-n // b)) for n, b in zip(S, B)]))
        for reg in itertools.product(*[[(lo, s) for lo in range(n) for s in range(1, n - lo + 1)] for n in S]):
            check_roi(c, bl, S, B, [x[0] for x in reg], [x[1] for x in reg])
        grid(c)
        return
    nd = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    ax = [axis(r) for _ in range(nd)]
    S, B = [a[0] for a in ax], [a[1] for a in ax]
    bl = z5vt.Blocking(S, B)
    G = [-(-n // b) for n, b in zip(S, B)]
    c.sig, c.sample = core.digest("big", S, B, i), "shape %s block %s" % (S, B)
    c.nontrivial = any(g > 1 for g in G)
    ids = [[r.choice([0, g - 1, r.randrange(g), min(g - 1, 1)]) for g in G] for _ in range(12)]
    check_blocks(c, bl, S, B, ids)
    for _ in range(10):
        mb = {1: 60, 2: 9, 3: 5, 4: 3, 5: 3, 6: 2}[nd]
        reg = [roi_axis(r, n, b, mb) for n, b in zip(S, B)]
        check_roi(c, bl, S, B, [x[0] for x in reg], [x[1] for x in reg])


def grid(c):
    import z5vt
    r = c.rnd
    lo = [r.choice([0, r.randint(0, 5), 2 ** 40, 2 ** 62]) for _ in range(r.randint(1, 4))]
    hi = [x + r.randint(0, 4) for x in lo]
    got = [tuple(x) for x in z5vt.regular_grid(lo, hi)]
    exp = list(itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]))
    c.ev("grids")
    if sorted(got) != exp or len(set(got)) != len(got):
        c.fail("regular-grid", "%s..%s: %s" % (lo, hi, got[:20]))


def dataset(c, i):
    """datasets whose axes go far beyond 2^32: shapes derived by the dataset and I/O at far away places"""
    import z5vt
    r = c.rnd
    f = core.FORMATS[i // 4 % 3]
    nd = r.choice([1, 2, 2, 3, 3, 4])
    S, B = [], []
    for _ in range(nd):
        if r.random() < .5:
            n = 2 ** r.choice([31, 32, 33, 40, 52, 60]) + r.choice([-1, 0, 1, r.randint(0, 1000)])
        else:
            n = r.randint(1, 30)
        S.append(n)
        B.append(max(1, min(n, r.randint(1, 9))))
    H = []
    if f == "zarr3" and r.random() < .6:
        H = [b * r.randint(1, 3) for b in B]
    G = [-(-n // b) for n, b in zip(S, B)]
    dtype = r.choice(["uint8", "int32", "float64", "uint16"])
    fill = 0 if f == "n5" else r.choice([0, 7])
    path = os.path.join(c.dir, "d" + {"n5": ".n5", "zarr2": ".zr", "zarr3": ".zarr"}[f])
    enc = r.choice(["default", "v2"])
    sep = r.choice([".", "/"]) if f == "zarr2" else ("/" if enc == "default" else ".")
    z5vt.create_file(path, f != "n5", 3 if f == "zarr3" else 2)
    desc = "%s shape %s chunks %s shards %s sep %s enc %s" % (f, S, B, H, sep, enc)
    c.sig, c.sample = core.digest("ds", desc, i), desc
    ds = z5vt.create(path, "d", dtype, S, B, "raw", "{}", float(fill), sep, 3 if f == "zarr3" else 2, enc, H)
    if r.random() < .7:
        del ds
        ds = z5vt.open(path, "d")
    tot = 1
    for n in S:
        tot *= n
    ng = 1
    for g in G:
        ng *= g
    if list(ds.shape) != S or list(ds.chunks) != B or list(ds.chunks_per_dim) != G or (tot < 2 ** 64 and ds.size != tot) or \
            (ng < 2 ** 64 and ds.number_of_chunks != ng) or list(ds.shards) != (H or []):
        c.fail("dataset-geometry", "%s: shape %s chunks %s shards %s per dim %s size %s number %s" % (
            desc, list(ds.shape), list(ds.chunks), list(ds.shards), list(ds.chunks_per_dim), ds.size, ds.number_of_chunks))
    for _ in range(10):
        cid = [r.choice([0, g - 1, r.randrange(g)]) for g in G]
        e = [min(k * b + b, n) - k * b for k, b, n in zip(cid, B, S)]
        off = [k * b for k, b in zip(cid, B)]
        if list(ds.chunk_shape(cid, False)) != e or [ds.chunk_shape_d(cid, d, False) for d in range(nd)] != e or list(ds.chunk_offset(cid)) != off:
            c.fail("chunk-geometry", "%s chunk %s: shape %s offset %s, expected %s %s" % (desc, cid, list(ds.chunk_shape(cid, False)), list(ds.chunk_offset(cid)), e, off))
        if ds.chunk_size(cid) != int(np.prod(e)):
            c.fail("chunk-size", "%s chunk %s: %d" % (desc, cid, ds.chunk_size(cid)))
        c.ev("dataset_chunks")
    written = []
    stored = set()
    for _ in range(5):
        reg = [roi_axis(r, n, b, 3 if nd < 4 else 2) for n, b in zip(S, B)]
        lo, shp = [x[0] for x in reg], [x[1] for x in reg]
        nt = r.choice([1, 1, 4])
        if r.random() < .7 or not written:
            if r.random() < .8:
                a = core.rand_data(c, shp, dtype, "full")
                fn("write_view", dtype)(ds, a, lo, nt)
            else:
                v = core.rand_data(c, (1,), dtype, "full")
                a = np.full(shp, v[0], dtype)
                fn("write_scalar", dtype)(ds, v, lo, shp, nt)
            written.append((lo, shp, a))
            stored |= set(itertools.product(*[range(o // b, (o + s - 1) // b + 1) for o, s, b in zip(lo, shp, B)]))
            c.ev("far_writes")
        elif r.random() < .5:
            lo, shp, _a = written[-1]
        exp = np.full(shp, fill, dtype)
        for l2, s2, a2 in written:
            x0 = [max(a, b) for a, b in zip(lo, l2)]
            x1 = [min(a + s, b + t) for a, s, b, t in zip(lo, shp, l2, s2)]
            if all(a < b for a, b in zip(x0, x1)):
                exp[tuple(slice(a - o, b - o) for a, b, o in zip(x0, x1, lo))] = a2[tuple(slice(a - o, b - o) for a, b, o in zip(x0, x1, l2))]
        out = np.full(shp, core.guard(dtype), dtype)
        fn("read_view", dtype)(ds, out, lo, nt)
        c.ev("far_reads")
        if not same(out, exp):
            c.fail("far-read", "%s region %s+%s: %s" % (desc, lo, shp, core.first_diff(out, exp)))
    # exactly the chunk (shard) files that the format prescribes exist
    names = set()
    for cid in stored:
        k = [x * b // h for x, b, h in zip(cid, B, H)] if H else list(cid)
        if f == "n5":
            names.add("/".join(str(x) for x in reversed(k)))
        elif f == "zarr2" or enc == "v2":
            names.add(sep.join(str(x) for x in k))
        else:
            names.add("/".join(["c"] + [str(x) for x in k]))
    have = set()
    base = os.path.join(path, "d")
    for dp, _d, fs in os.walk(base):
        for x in fs:
            have.add(os.path.relpath(os.path.join(dp, x), base))
    have -= {"attributes.json", ".zarray", ".zattrs", "zarr.json"}
    if not have <= names:
        c.fail("chunk-keys", "%s: unexpected files %s (expected among %s)" % (desc, sorted(have - names)[:6], sorted(names)[:6]))
    ex = [cid for cid in stored if ds.chunk_exists(list(cid))]
    if not H and len(ex) != len(have):
        c.fail("chunk-existence", "%s: %d chunks reported, %d files" % (desc, len(ex), len(have)))
