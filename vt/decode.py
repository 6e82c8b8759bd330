"""Independent decoder of the N5 / Zarr v2 / Zarr v3 on-disk formats (python stdlib + numcodecs codecs, no z5 code)."""
import gzip, json, lzma, bz2, os, struct, zlib
import numpy as np

EMPTY = 0xffffffffffffffff


class FormatError(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise FormatError(msg)


_tab = None


def crc32c(b):
    global _tab
    if _tab is None:
        _tab = []
        for i in range(256):
            x = i
            for _ in range(8):
                x = (x >> 1) ^ (0x82f63b78 if x & 1 else 0)
            _tab.append(x)
    c = 0xffffffff
    for x in b:
        c = _tab[(c ^ x) & 0xff] ^ (c >> 8)
    return c ^ 0xffffffff


def _zlib_exact(b, wbits):
    d = zlib.decompressobj(wbits)
    o = d.decompress(b)
    o += d.flush()
    need(d.eof, "deflate stream is not terminated")
    need(not d.unused_data, "bytes after the deflate stream")
    return o


def decode(codec, buf, nbytes):
    """codec: raw/gzip/zlib/bzip2/xz/lz4/blosc/zstd; nbytes: the decoded size the format implies"""
    buf = bytes(buf)
    if codec == "raw":
        o = buf
    elif codec == "gzip":
        need(buf[:2] == b"\x1f\x8b", "no gzip header: %r" % buf[:4])
        o = gzip.decompress(buf)
    elif codec == "zlib":
        o = _zlib_exact(buf, 15)
    elif codec == "bzip2":
        need(buf[:3] == b"BZh", "no bzip2 header: %r" % buf[:4])
        o = bz2.decompress(buf)
    elif codec == "xz":
        need(buf[:6] == b"\xfd7zXZ\x00", "no xz header: %r" % buf[:6])
        o = lzma.decompress(buf, format=lzma.FORMAT_XZ)
    elif codec == "lz4":
        from numcodecs.lz4 import decompress
        o = bytes(decompress(struct.pack("<i", nbytes) + buf))
    elif codec == "blosc":
        from numcodecs import blosc
        need(len(buf) >= 16, "blosc buffer without header")
        need(struct.unpack("<I", buf[12:16])[0] == len(buf), "blosc header size %d, file %d" % (struct.unpack("<I", buf[12:16])[0], len(buf)))
        o = bytes(blosc.decompress(buf))
    elif codec == "zstd":
        from numcodecs import zstd
        need(buf[:4] == b"\x28\xb5\x2f\xfd", "no zstd header: %r" % buf[:4])
        o = bytes(zstd.decompress(buf))
    else:
        raise FormatError("unknown codec %r" % codec)
    need(len(o) == nbytes, "decoded size %d, expected %d" % (len(o), nbytes))
    return o


def encode(codec, raw, rnd, n5=False):
    """a standard stream of the codec made without z5"""
    if codec == "raw":
        return raw
    if codec == "gzip":
        return gzip.compress(raw, rnd.randint(0, 9))
    if codec == "zlib":
        return zlib.compress(raw, rnd.randint(0, 9))
    if codec == "bzip2":
        return bz2.compress(raw, rnd.randint(1, 9))
    if codec == "xz":
        return lzma.compress(raw, preset=rnd.randint(0, 6))
    if codec == "lz4":
        from numcodecs.lz4 import compress
        return bytes(compress(raw, acceleration=rnd.choice([1, 5])))[4:]
    if codec == "blosc":
        from numcodecs import blosc
        return bytes(blosc.compress(raw, rnd.choice([b"lz4", b"zstd", b"blosclz", b"zlib", b"lz4hc"]), rnd.randint(1, 9), rnd.randint(0, 2), typesize=rnd.choice([1, 2, 4, 8])))
    if codec == "zstd":
        from numcodecs import zstd
        return bytes(zstd.compress(raw, rnd.choice([1, 3, 9])))
    raise FormatError(codec)


# ------------------------------------------------------------------------------------------
# metadata

V2COMP = {"blosc": "blosc", "zlib": "zlib", "gzip": "gzip", "bz2": "bzip2", "zstd": "zstd"}
SPECIAL = {"NaN": float("nan"), "Infinity": float("inf"), "-Infinity": float("-inf")}


class Meta:
    pass


def fill_of(v, dt):
    if isinstance(v, str):
        need(dt.kind == "f" and v in SPECIAL, "fill value %r" % v)
        v = SPECIAL[v]
    if v is None:
        v = 0
    if dt.kind in "iu":
        need(not isinstance(v, bool) and float(v) == int(v), "fill value %r for %s" % (v, dt))
        v = int(v)
        need(np.iinfo(dt).min <= v <= np.iinfo(dt).max, "fill value %r outside of %s" % (v, dt))
    return np.array([v], dtype=dt)[0]


def is_pos_list(x):
    return isinstance(x, list) and all(isinstance(v, int) and not isinstance(v, bool) for v in x)


def meta_v2(d):
    j = json.load(open(os.path.join(d, ".zarray")))
    need({"zarr_format", "shape", "chunks", "dtype", "compressor", "fill_value", "order", "filters"} <= set(j), "keys %s" % sorted(j))
    need(set(j) <= {"zarr_format", "shape", "chunks", "dtype", "compressor", "fill_value", "order", "filters", "dimension_separator"}, "keys %s" % sorted(j))
    need(j["zarr_format"] == 2 and j["order"] == "C" and j["filters"] is None, "zarr_format/order/filters")
    m = Meta()
    need(is_pos_list(j["shape"]) and is_pos_list(j["chunks"]), "shape/chunks")
    m.shape, m.chunks = tuple(j["shape"]), tuple(j["chunks"])
    need(j["dtype"][0] in "<|" and (j["dtype"][0] == "|") == (j["dtype"][2:] == "1"), "dtype %s" % j["dtype"])
    m.dt = np.dtype(j["dtype"])
    m.fill = fill_of(j["fill_value"], m.dt)
    c = j["compressor"]
    m.copts = dict(c or {})
    m.codec = "raw" if c is None else V2COMP.get(c["id"], c["id"])
    if m.codec == "blosc":
        need({"cname", "clevel", "shuffle", "blocksize"} <= set(c), "blosc keys %s" % sorted(c))
        need(c["cname"] in ("lz4", "lz4hc", "blosclz", "zlib", "zstd", "snappy"), "cname")
    elif c is not None:
        need(isinstance(c.get("level"), int), "level of %s" % c)
    m.sep = j.get("dimension_separator", ".")
    need(m.sep in "./", "separator")
    m.shards = ()
    m.fmt = "zarr2"
    return m


V3T = {"int8": "i1", "int16": "<i2", "int32": "<i4", "int64": "<i8", "uint8": "u1", "uint16": "<u2", "uint32": "<u4", "uint64": "<u8",
       "float32": "<f4", "float64": "<f8"}


def codec_v3(cs, m):
    need(len(cs) >= 1 and cs[0].get("name") == "bytes", "first codec must be bytes: %s" % cs)
    e = cs[0].get("configuration", {}).get("endian")
    need(e in (None, "little") and (e == "little" or m.dt.itemsize == 1), "endian %r" % e)
    if len(cs) == 1:
        m.codec, m.copts = "raw", {}
        return
    need(len(cs) == 2, "codecs %s" % cs)
    m.codec = cs[1]["name"]
    need(m.codec in ("gzip", "blosc", "zstd"), "codec %s" % m.codec)
    m.copts = k = cs[1]["configuration"]
    if m.codec == "gzip":
        need(isinstance(k["level"], int) and 0 <= k["level"] <= 9, "gzip level")
    elif m.codec == "zstd":
        need(isinstance(k["level"], int) and isinstance(k.get("checksum", False), bool), "zstd configuration")
    else:
        need(k["cname"] in ("lz4", "lz4hc", "blosclz", "zlib", "zstd", "snappy") and k["shuffle"] in ("noshuffle", "shuffle", "bitshuffle")
             and isinstance(k["clevel"], int) and isinstance(k["blocksize"], int) and
             (k["shuffle"] == "noshuffle" or k.get("typesize", 0) >= 1), "blosc configuration %s" % k)


def meta_v3(d):
    j = json.load(open(os.path.join(d, "zarr.json")))
    need({"zarr_format", "node_type", "shape", "data_type", "chunk_grid", "chunk_key_encoding", "fill_value", "codecs"} <= set(j), "keys %s" % sorted(j))
    need(set(j) <= {"zarr_format", "node_type", "shape", "data_type", "chunk_grid", "chunk_key_encoding", "fill_value", "codecs",
                    "attributes", "storage_transformers", "dimension_names"}, "keys %s" % sorted(j))
    need(j["zarr_format"] == 3 and j["node_type"] == "array" and not j.get("storage_transformers"), "zarr_format/node_type")
    m = Meta()
    need(is_pos_list(j["shape"]), "shape")
    m.shape = tuple(j["shape"])
    m.dt = np.dtype(V3T[j["data_type"]])
    need(j["chunk_grid"]["name"] == "regular", "grid")
    grid = j["chunk_grid"]["configuration"]["chunk_shape"]
    need(is_pos_list(grid), "chunk_shape")
    enc = j["chunk_key_encoding"]
    need(enc["name"] in ("default", "v2"), "encoding")
    m.enc = enc["name"]
    m.sep = enc.get("configuration", {}).get("separator", "/" if m.enc == "default" else ".")
    m.fill = fill_of(j["fill_value"], m.dt)
    need(j["fill_value"] is not None, "null fill value in v3")
    cs = j["codecs"]
    if cs[0]["name"] == "sharding_indexed":
        need(len(cs) == 1, "codecs around the sharding codec")
        k = cs[0]["configuration"]
        m.shards = tuple(grid)
        m.chunks = tuple(k["chunk_shape"])
        need(len(m.shards) == len(m.chunks) and all(a % b == 0 for a, b in zip(m.shards, m.chunks)), "shards do not divide")
        ic = k["index_codecs"]
        need([x["name"] for x in ic] == ["bytes", "crc32c"] and ic[0]["configuration"]["endian"] == "little", "index codecs %s" % ic)
        need(k.get("index_location", "end") == "end", "index location")
        codec_v3(k["codecs"], m)
    else:
        m.shards, m.chunks = (), tuple(grid)
        codec_v3(cs, m)
    m.fmt = "zarr3"
    return m


def meta_n5(d):
    j = json.load(open(os.path.join(d, "attributes.json")))
    need({"dimensions", "blockSize", "dataType", "compression"} <= set(j), "keys %s" % sorted(j))
    m = Meta()
    need(is_pos_list(j["dimensions"]) and is_pos_list(j["blockSize"]), "dimensions")
    m.shape, m.chunks = tuple(reversed(j["dimensions"])), tuple(reversed(j["blockSize"]))
    need(j["dataType"] in V3T, "dataType")
    m.dt = np.dtype(j["dataType"])
    m.copts = c = j["compression"]
    m.codec = c["type"]
    need(isinstance(c.get("useZlib", False), bool), "useZlib")
    if m.codec == "gzip" and c.get("useZlib"):
        m.stream = "zlib"
    need(m.codec in ("raw", "gzip", "bzip2", "xz", "lz4", "blosc", "zstd"), "compression %s" % c)
    k = {"gzip": "level", "bzip2": "blockSize", "xz": "preset", "lz4": "blockSize", "blosc": "clevel", "zstd": "level"}.get(m.codec)
    need(k is None or isinstance(c.get(k), int), "compression %s" % c)
    m.fill = np.array([0], m.dt)[0]
    m.shards, m.fmt = (), "n5"
    return m


def meta(d, fmt):
    m = {"n5": meta_n5, "zarr2": meta_v2, "zarr3": meta_v3}[fmt](d)
    need(len(m.shape) == len(m.chunks) and (not m.shards or len(m.shards) == len(m.shape)), "ranks differ")
    m.dir = d
    m.grid = tuple(-(-s // c) for s, c in zip(m.shape, m.chunks))
    return m


# ------------------------------------------------------------------------------------------
# keys

def key(m, cid):
    if m.fmt == "n5":
        return "/".join(str(x) for x in reversed(cid))
    ids = [str(x) for x in cid]
    if m.fmt == "zarr2" or m.enc == "v2":
        return m.sep.join(ids)
    return m.sep.join(["c"] + ids)


def parse_shard(buf, nslots):
    """-> [(offset, nbytes) or None] ; raises FormatError for an invalid shard"""
    n = 16 * nslots + 4
    need(len(buf) >= n, "shard of %d bytes is shorter than its index (%d)" % (len(buf), n))
    ix = buf[-n:]
    need(crc32c(ix[:-4]) == struct.unpack("<I", ix[-4:])[0], "index checksum")
    out, used = [], []
    for k in range(nslots):
        o, s = struct.unpack("<QQ", ix[16 * k:16 * k + 16])
        if o == EMPTY or s == EMPTY:
            need(o == EMPTY and s == EMPTY, "half-empty index entry %d" % k)
            out.append(None)
            continue
        need(o + s <= len(buf) - n, "entry %d [%d, +%d) outside of the %d data bytes" % (k, o, s, len(buf) - n))
        need(s > 0, "entry %d is present with zero bytes" % k)
        used.append((o, s, k))
        out.append((o, s))
    used.sort()
    for (o1, s1, k1), (o2, s2, k2) in zip(used, used[1:]):
        need(o1 + s1 <= o2, "entries %d and %d overlap" % (k1, k2))
    return out


def decode_zarr_chunk(m, buf):
    n = int(np.prod(m.chunks))
    raw = decode(getattr(m, 'stream', m.codec), buf, n * m.dt.itemsize)
    return np.frombuffer(raw, dtype=m.dt).reshape(m.chunks)


def decode_n5_chunk(m, buf, cid, strict=True):
    nd = len(m.shape)
    need(len(buf) >= 4 + 4 * nd, "n5 block without header")
    mode, rank = struct.unpack(">HH", buf[:4])
    need(mode == 0, "n5 mode %d" % mode)
    need(rank == nd, "n5 rank %d" % rank)
    shp = tuple(reversed(struct.unpack(">%dI" % nd, buf[4:4 + 4 * nd])))
    exp = tuple(min(c, s - i * c) for i, c, s in zip(cid, m.chunks, m.shape))
    need(shp == exp, "n5 block shape %s, expected %s" % (shp, exp))
    n = int(np.prod(shp))
    raw = decode(getattr(m, 'stream', m.codec), buf[4 + 4 * nd:], n * m.dt.itemsize)
    return np.frombuffer(raw, dtype=m.dt.newbyteorder(">")).reshape(shp).astype(m.dt)


def chunk_files(m):
    """relative keys of everything stored in the dataset's directory apart from metadata and attributes"""
    ign = {"n5": {"attributes.json"}, "zarr2": {".zarray", ".zattrs"}, "zarr3": {"zarr.json"}}[m.fmt]
    out = {}
    for r, _, fs in os.walk(m.dir):
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), m.dir)
            if rel not in ign:
                out[rel] = os.path.join(r, f)
    return out


def stored(m):
    """-> {chunk id: encoded bytes}; checks that every file has a valid key and every shard is valid"""
    files = chunk_files(m)
    res = {}
    if not m.shards:
        for cid in np.ndindex(*m.grid):
            p = files.pop(key(m, cid), None)
            if p is not None:
                res[tuple(cid)] = open(p, "rb").read()
        need(not files, "unexpected files in the dataset: %s" % sorted(files)[:5])
        return res
    per = tuple(a // b for a, b in zip(m.shards, m.chunks))
    sgrid = tuple(-(-s // c) for s, c in zip(m.shape, m.shards))
    for sid in np.ndindex(*sgrid):
        p = files.pop(key(m, sid), None)
        if p is None:
            continue
        buf = open(p, "rb").read()
        ent = parse_shard(buf, int(np.prod(per)))
        need(any(e is not None for e in ent), "shard %s holds no inner chunk but exists" % (sid,))
        for k, rel in enumerate(np.ndindex(*per)):
            if ent[k] is None:
                continue
            cid = tuple(s * n + x for s, n, x in zip(sid, per, rel))
            need(all(x < g for x, g in zip(cid, m.grid)), "shard %s holds inner chunk %s outside of the array" % (sid, cid))
            o, n = ent[k]
            res[cid] = buf[o:o + n]
    need(not files, "unexpected files in the dataset: %s" % sorted(files)[:5])
    return res


def load(m, pad_is_fill=True):
    """-> (array, {chunk ids stored}); the padding of zarr edge chunks must be the fill value"""
    a = np.full(m.shape, m.fill, dtype=m.dt)
    st = stored(m)
    for cid, buf in st.items():
        reg = tuple(slice(i * c, min((i + 1) * c, s)) for i, c, s in zip(cid, m.chunks, m.shape))
        if m.fmt == "n5":
            a[reg] = decode_n5_chunk(m, buf, cid)
            continue
        x = decode_zarr_chunk(m, buf)
        ins = tuple(slice(0, r.stop - r.start) for r in reg)
        a[reg] = x[ins]
        if pad_is_fill:
            msk = np.ones(m.chunks, bool)
            msk[ins] = False
            p = x[msk]
            if p.size:
                ok = np.isnan(p).all() if (m.dt.kind == "f" and np.isnan(m.fill)) else (p == m.fill).all()
                need(ok, "padding of edge chunk %s is not the fill value" % (cid,))
    return a, set(st)
