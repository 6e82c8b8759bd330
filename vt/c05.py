"""damaged chunks, headers and shards"""
import os, struct
import numpy as np
from . import core, decode
from .session import Session
from .core import same, first_diff


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def wr(p, b):
    with open(p, "wb") as f:
        f.write(b)


def flip(r, b, n, lo=0, hi=None):
    b = bytearray(b)
    hi = len(b) if hi is None else hi
    for _ in range(n):
        if hi <= lo:
            break
        k = r.randrange(lo, hi)
        b[k] = r.choice([b[k] ^ (1 << r.randrange(8)), 0, 0xff, r.randrange(256)])
    return bytes(b)


def reindex(ents):
    ix = b"".join(struct.pack("<QQ", o, n) for o, n in ents)
    return ix + struct.pack("<I", decode.crc32c(ix))


def corrupt_shard(c, b, nslots, slot):
    """-> (bytes, name, must_raise_for_slot, whole index unreadable)"""
    r = c.rnd
    n = 16 * nslots + 4
    k = r.choice(["trunc", "trunc", "tail", "empty", "zero", "ixflip", "ixflip", "crcflip", "oob", "oob", "huge", "wrap", "swap",
                  "half", "chunkcut", "extend", "body"])
    body, ents = b[:-n], [struct.unpack("<QQ", b[-n + 16 * j:len(b) - n + 16 * j + 16]) for j in range(nslots)]
    if k == "trunc":
        return b[:r.randrange(len(b))], k, True, True
    if k == "tail":
        return b[:len(b) - r.randint(1, min(len(b), n))], k, True, True
    if k == "empty":
        return b"", k, True, True
    if k == "zero":
        return bytes(len(b)), k, True, True
    if k == "ixflip":
        p = len(body) + r.randrange(n - 4)
        x = bytearray(b)
        x[p] ^= 1 << r.randrange(8)
        return bytes(x), k, True, True
    if k == "crcflip":
        x = bytearray(b)
        x[-1 - r.randrange(4)] ^= 1 << r.randrange(8)
        return bytes(x), k, True, True
    if k == "extend":
        return b + bytes(r.randrange(256) for _ in range(r.randint(1, 40))), k, True, True
    o, s = ents[slot]
    if k == "oob":
        ents[slot] = r.choice([(o, len(body) - o + r.randint(1, n)), (len(body) + r.randint(1, 50), s), (o, len(b)), (len(body), max(1, s))])
        # an entry reaching into the index is still inside the file: only out-of-file entries have to be refused
        must = sum(ents[slot]) > len(b)
        return body + reindex(ents), k, must, must or None
    if k == "huge":
        ents[slot] = r.choice([(o, 2 ** 63), (2 ** 63, s), (2 ** 64 - 2, 1), (0, 2 ** 64 - 2), (2 ** 40, s), (o, 2 ** 31)])
        return body + reindex(ents), k, True, True
    if k == "wrap":
        ents[slot] = r.choice([(2 ** 64 - 8, 16), (2 ** 64 - s, s), (2 ** 64 - 2, s + 2), (s + 1, 2 ** 64 - s - 1)])
        must = decode.EMPTY not in ents[slot]
        return body + reindex(ents), k, must, must or None
    if k == "swap":
        j = r.randrange(nslots)
        ents[slot] = ents[j]
        return body + reindex(ents), k, False, False
    if k == "half":
        ents[slot] = r.choice([(decode.EMPTY, s), (o, decode.EMPTY)])
        return body + reindex(ents), k, False, False
    if k == "chunkcut":
        ents[slot] = (o, r.randrange(0, s))
        return body + reindex(ents), k, ents[slot][1] > 0, False
    x = flip(r, body, r.randint(1, 4), o, o + s)
    return x + b[len(body):], "body", False, False


def corrupt_n5(c, s, b, cid):
    r = c.rnd
    nd = s.ndim
    h = 4 + 4 * nd
    k = r.choice(["trunc", "trunc", "hdrtrunc", "empty", "zero", "mode", "rank", "dims", "dims", "dimshuge", "dimzero", "body", "varlen", "extend"])
    if k == "trunc":
        return b[:h + r.randrange(len(b) - h)] if len(b) > h else b"", k, True
    if k == "hdrtrunc":
        return b[:r.randrange(h)], k, True
    if k == "empty":
        return b"", k, True
    if k == "zero":
        return bytes(len(b)), k, s.comp != "raw"
    if k == "mode":
        return struct.pack(">H", r.choice([2, 3, 255, 256, 65535])) + b[2:], k, False
    if k == "rank":
        return b[:2] + struct.pack(">H", r.choice([0, nd - 1, nd + 1, 255, 65535])) + b[4:], k, False
    dims = list(struct.unpack(">%dI" % nd, b[4:h]))
    if k == "dims":
        d = r.randrange(nd)
        dims[d] = max(1, dims[d] + r.choice([-1, 1, 2, 5, -2, 40]))
    elif k == "dimshuge":
        for d in range(nd):
            if r.random() < .7:
                dims[d] = r.choice([2 ** 32 - 1, 2 ** 31, 2 ** 16, 2 ** 20, 2 ** 30])
    elif k == "dimzero":
        dims[r.randrange(nd)] = 0
    if k in ("dims", "dimshuge", "dimzero"):
        return b[:4] + struct.pack(">%dI" % nd, *dims) + b[h:], k, False
    if k == "varlen":
        cnt = r.choice([2 ** 32 - 1, 2 ** 31]) if r.random() < .02 else r.choice([0, 1, 7, 2 ** 16, int(np.prod(dims)), int(np.prod(dims)) + 1, 2 ** 20])
        return struct.pack(">H", 1) + b[2:h] + struct.pack(">I", cnt) + b[h:], k, False
    if k == "extend":
        return b + bytes(r.randrange(256) for _ in range(r.randint(1, 40))), k, False
    if s.comp == "blosc":
        return b[:h] + b[h:h + r.randrange(len(b) - h)], "trunc", True
    return flip(r, b, r.randint(1, 4), h), k, False


def corrupt_zarr(c, s, b):
    r = c.rnd
    k = r.choice(["trunc", "trunc", "cut1", "empty", "zero", "body", "body", "extend", "dup", "size"])
    if k == "trunc":
        return b[:r.randrange(len(b))], k, True
    if k == "cut1":
        return b[:-1 - r.randrange(min(len(b), 4))], k, True
    if k == "empty":
        return b"", k, True
    if k == "zero":
        return bytes(len(b)), k, s.comp != "raw"
    if k == "extend":
        return b + bytes(r.randrange(256) for _ in range(r.randint(1, 40))), k, False
    if k == "dup":
        return b + b, k, False
    if k == "size":
        # a valid stream of the wrong decoded size
        n = int(np.prod(s.chunks)) * np.dtype(s.dtype).itemsize
        m = r.choice([1, n - 1, n // 2 + 1, n + 1, 2 * n, 10 * n + 3])
        m = max(1, m)
        return decode.encode(s.comp, bytes(r.randrange(256) for _ in range(m)), r), k, m < n and s.comp in ("raw", "lz4", "zstd")
    if s.comp == "blosc":
        x = bytearray(b)
        x[r.choice([4, 5, 6, 12, 13, 14])] ^= 1 << r.randrange(8)        # nbytes / cbytes of the header
        return bytes(x), "bloschdr", True
    return flip(r, b, r.randint(1, 4)), k, False


def case(c, i):
    r = c.rnd
    combos = [(f, co, d) for f in core.FORMATS for co in core.COMP[f] for d in core.PYTYPES]
    f, co, d = combos[i * 61 % len(combos)]
    s = core.rand_spec(c, fmt=f, comp=co, dtype=d, maxel=1500, minchunks=2, sharded=(i % 2 == 0) if f == "zarr3" else False)
    se = Session(c, s, n_threads=1)
    data = core.rand_data(c, s.shape, d, r.choice(["full", "small", "ramp"]))
    data = np.where(data == s.fillval(), np.array([1 if s.fillval() != 1 else 2]).astype(d)[0], data).astype(d)
    se.write((0,) * s.ndim, s.shape, data, "cview")
    c.sig, c.sample = core.digest(s.desc(), i), s.desc()
    for rep in range(3):
        cid = tuple(r.randrange(g) for g in s.grid)
        p = se.store_file(cid)
        good = rd(p)
        unreadable = False
        hit = {cid}
        if s.shards:
            per = tuple(a // b for a, b in zip(s.shards, s.chunks))
            slot = int(np.ravel_multi_index(tuple(a % b for a, b in zip(cid, per)), per))
            ns = int(np.prod(per))
            bad, kind, must, unreadable = corrupt_shard(c, good, ns, slot)
            if unreadable is not False:
                hit = {q for q in core.all_chunks(s) if se.shard_of(q) == se.shard_of(cid)}
            if co == "blosc" and kind in ("body", "oob", "swap"):
                continue
        elif f == "n5":
            bad, kind, must = corrupt_n5(c, s, good, cid)
        else:
            bad, kind, must = corrupt_zarr(c, s, good)
        if bad == good:
            continue
        c.note("corrupt", kind, "chunk", cid, "size", len(good), "->", len(bad))
        c.ev("corruptions")
        c.ev("kind_" + kind)
        wr(p, bad)
        probe(c, se, cid, hit, kind, must, p, bad, unreadable)
        wr(p, good)
        se.reopen()
        se.check(how="getitem", key="not-usable-afterwards")


def probe(c, se, cid, hit, kind, must, p, bad, unreadable):
    s, r = se.s, c.rnd
    reg = core.chunk_region(s, cid)
    lo, hi = [x.start for x in reg], [x.stop for x in reg]
    shp = [b - a for a, b in zip(lo, hi)]

    def verdict(name, f, exp_shape=None, need=must):
        c.ev("damaged_reads")
        try:
            x = f()
        except Exception as e:
            c.ev("reported")
            return None
        c.ev("returned")
        if need:
            c.fail("silent:%s:%s:%s" % (kind, s.fmt + ("-sharded" if s.shards else ""), s.comp),
                   "%s of chunk %s did not raise although the stored data is damaged (%s, %d bytes; %s)" % (name, cid, kind, len(bad), s.desc()))
        if exp_shape is not None and tuple(np.shape(x)) != tuple(exp_shape):
            c.fail("shape", "%s returned shape %s, expected %s" % (name, np.shape(x), exp_shape))
        return x
    verdict("array read", lambda: se.read(lo, hi, "getitem"), shp)
    verdict("array read (C++)", lambda: se.read(lo, hi, "cview"), shp)
    a, b = core.rand_roi(c, shp)
    verdict("partial read", lambda: se.read([x + y for x, y in zip(lo, a)], [x + y for x, y in zip(lo, b)], "cview"),
            [y - x for x, y in zip(a, b)])
    se.threads(4)
    verdict("threaded read", lambda: se.read((0,) * s.ndim, s.shape, r.choice(["getitem", "cview"])), s.shape)
    se.threads(1)
    x = verdict("chunk read", lambda: se.ds.read_chunk(list(cid)))
    if x is not None and not (kind == "varlen" and x.ndim == 1):
        if len(x.shape) != s.ndim or any(u > v for u, v in zip(x.shape, s.chunks)):
            c.fail("shape", "chunk read returned shape %s for chunks %s" % (x.shape, s.chunks))
    # queries may raise but not crash
    for f in (lambda: se.cpp.chunk_exists(list(cid)), lambda: se.cpp.check_varlen(list(cid)), lambda: se.cpp.chunk_shape(list(cid), True),
              lambda: se.cpp.chunk_size(list(cid)), *(() if kind == "varlen" else (lambda: core.fn("unique", s.dtype)(se.cpp, 2), lambda: core.fn("unique_counts", s.dtype)(se.cpp, 1))),
              lambda: se.cpp.read_raw(list(cid))):
        core.raises(f)
        c.ev("damaged_queries")
    # chunks that are not damaged stay readable
    for q in core.all_chunks(s):
        if q not in hit:
            qr = core.chunk_region(s, q)
            se.check([x.start for x in qr], [x.stop for x in qr], how=r.choice(["getitem", "cview"]), key="other-chunk-affected")
            break
    # a write that has to read the damaged data
    if unreadable:
        how = r.choice(["partial", "chunk", "chunkiface", "scalar"])
        before = core.snapshot(se.path)
        v = core.rand_data(c, shp, s.dtype, "full")

        def w():
            if how == "partial":
                z = tuple(0 for _ in shp)
                o = tuple(max(1, n // 2) for n in shp)
                se.ds[core.sl([x + y for x, y in zip(lo, z)], [x + y for x, y in zip(lo, o)])] = v[core.sl(z, o)]
            elif how == "chunk":
                se.ds[reg] = v
            elif how == "chunkiface":
                se.ds.write_chunk(list(cid), se.chunk_payload(cid, v))
            else:
                se.ds[reg] = v.flat[0].item()
        e = core.raises(w)
        c.ev("writes_to_unreadable_shards")
        d = core.snap_diff(before, core.snapshot(se.path))
        if e is None:
            c.fail("write-over-broken-shard:" + kind, "%s write did not raise (%s)" % (how, s.desc()))
        if d:
            c.fail("write-over-broken-shard:changed", "%s write changed %s" % (how, d[:5]))
        if core.raises(lambda: se.cpp.remove_chunk(list(cid))) is None or core.snap_diff(before, core.snapshot(se.path)):
            c.fail("remove-in-broken-shard", "removing an inner chunk of an unreadable shard did not raise or changed it")
    elif not s.shards and max(shp) > 1:
        before = rd(p)
        d = max(range(s.ndim), key=lambda k: shp[k])
        h2 = list(hi)
        h2[d] = lo[d] + 1
        v = core.rand_data(c, [b - a for a, b in zip(lo, h2)], s.dtype, "full")
        e = core.raises(lambda: se.ds.__setitem__(core.sl(lo, h2), v))
        c.ev("partial_writes_to_damaged")
        if must and (e is None or rd(p) != before):
            c.fail("partial-write-over-damaged:" + kind, "a partial write over a damaged chunk must raise and keep it: %r (%s)" % (e, s.desc()))
