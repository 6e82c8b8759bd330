"""Independent writer of conforming N5 / Zarr v2 / Zarr v3 datasets in the spellings other tools use (no z5 code)."""
import json, os, struct
import numpy as np
from . import decode, core


def jfill(v):
    v = v.item() if hasattr(v, "item") else v
    if isinstance(v, float):
        if v != v:
            return "NaN"
        if v in (float("inf"), float("-inf")):
            return "Infinity" if v > 0 else "-Infinity"
    return v


def root(path, fmt):
    os.makedirs(path, exist_ok=True)
    if fmt == "n5":
        w(path, "attributes.json", {"n5": "2.5.1"})
    elif fmt == "zarr2":
        w(path, ".zgroup", {"zarr_format": 2})
    else:
        w(path, "zarr.json", {"zarr_format": 3, "node_type": "group", "attributes": {}})


def w(d, name, j):
    with open(os.path.join(d, name), "w") as f:
        json.dump(j, f)


def metadata(c, s, extras=True):
    """-> (metadata file name, dict); sets s.sep/s.enc spellings and s.v2null"""
    r = c.rnd
    if s.fmt == "n5":
        comp = {"type": s.comp}
        if s.comp == "gzip":
            comp["level"] = r.choice([-1, 1, 6, 9])
            if r.random() < .5:
                comp["useZlib"] = r.random() < .6
                if comp["useZlib"]:
                    s.stream = "zlib"
        elif s.comp == "bzip2":
            comp["blockSize"] = r.randint(1, 9)
        elif s.comp == "xz":
            comp["preset"] = r.randint(0, 9)
        elif s.comp == "lz4":
            comp["blockSize"] = 65536
        elif s.comp == "blosc":
            comp.update(cname=r.choice(["lz4", "zstd", "blosclz", "zlib", "lz4hc"]), clevel=r.randint(1, 9), shuffle=r.randint(0, 2), blocksize=0)
            if r.random() < .7:
                comp["nthreads"] = 1
        elif s.comp == "zstd":
            comp["level"] = r.choice([1, 3, 9])
        j = {"dimensions": list(reversed(s.shape)), "blockSize": list(reversed(s.chunks)), "dataType": s.dtype, "compression": comp}
        if r.random() < .15 and s.comp in ("raw", "gzip", "bzip2", "xz", "lz4") and not hasattr(s, "stream"):
            del j["compression"]
            j["compressionType"] = s.comp
        if extras and r.random() < .5:
            j["downsamplingFactors"] = [1] * s.ndim
            j["units"] = {"a": ["nm"]}
        return "attributes.json", j
    if s.fmt == "zarr2":
        comp = None
        if s.comp == "blosc":
            comp = {"id": "blosc", "cname": r.choice(["lz4", "zstd", "blosclz", "zlib", "lz4hc"]), "clevel": r.randint(1, 9), "shuffle": r.randint(0, 2), "blocksize": r.choice([0, 64])}
        elif s.comp == "bzip2":
            comp = {"id": "bz2", "level": r.randint(1, 9)}
        elif s.comp != "raw":
            comp = {"id": s.comp, "level": r.randint(1, 9)}
            if s.comp == "zstd" and r.random() < .5:
                comp["checksum"] = False
        dt = np.dtype(s.dtype)
        j = {"zarr_format": 2, "shape": list(s.shape), "chunks": list(s.chunks), "order": "C", "filters": None,
             "dtype": dt.str if dt.itemsize > 1 else "|" + dt.str[1:], "compressor": comp, "fill_value": jfill(s.fillval())}
        if s.dtype.startswith("complex"):
            j["fill_value"] = float(s.fillval().real)
        if s.sep == "/" or r.random() < .5:
            j["dimension_separator"] = s.sep
        return ".zarray", j
    if s.comp == "raw":
        tail = []
    elif s.comp == "gzip":
        tail = [{"name": "gzip", "configuration": {"level": r.randint(0, 9)}}]
    elif s.comp == "zstd":
        tail = [{"name": "zstd", "configuration": {"level": r.choice([0, 1, 3]), "checksum": False}}]
    else:
        sh = r.choice(["noshuffle", "shuffle", "bitshuffle"])
        k = {"cname": r.choice(["lz4", "zstd", "blosclz", "zlib", "lz4hc"]), "clevel": r.randint(1, 9), "shuffle": sh, "blocksize": 0}
        if sh != "noshuffle" or r.random() < .5:
            k["typesize"] = np.dtype(s.dtype).itemsize
        tail = [{"name": "blosc", "configuration": k}]
    by = {"name": "bytes", "configuration": {"endian": "little"}}
    if np.dtype(s.dtype).itemsize == 1 and r.random() < .5:
        by = {"name": "bytes"}
    cs = [by] + tail
    grid = s.chunks
    if s.shards:
        grid = s.shards
        conf = {"chunk_shape": list(s.chunks), "codecs": cs,
                "index_codecs": [{"name": "bytes", "configuration": {"endian": "little"}}, {"name": "crc32c"}]}
        if r.random() < .6:
            conf["index_location"] = "end"
        cs = [{"name": "sharding_indexed", "configuration": conf}]
    enc = {"name": s.enc}
    if s.sep != {"default": "/", "v2": "."}[s.enc] or r.random() < .6:
        enc["configuration"] = {"separator": s.sep}
    j = {"zarr_format": 3, "node_type": "array", "shape": list(s.shape), "data_type": s.dtype,
         "chunk_grid": {"name": "regular", "configuration": {"chunk_shape": list(grid)}}, "chunk_key_encoding": enc,
         "fill_value": jfill(s.fillval()), "codecs": cs}
    if extras:
        if r.random() < .6:
            j["attributes"] = {} if r.random() < .5 else {"foo": [1, {"b": None}]}
        if r.random() < .5:
            j["storage_transformers"] = []
        if r.random() < .3:
            j["dimension_names"] = [None] * s.ndim
    return "zarr.json", j


def chunk_bytes(c, s, cid, a):
    """-> (encoded bytes) of the data of one chunk"""
    r = c.rnd
    dt = np.dtype(s.dtype)
    if s.fmt == "n5":
        shp = a.shape
        if shp != tuple(s.chunks) and getattr(s, "full_edges", False):
            full = core.rand_data(c, s.chunks, s.dtype, "full")
            full[tuple(slice(0, n) for n in shp)] = a
            a, shp = full, tuple(s.chunks)
        raw = np.ascontiguousarray(a).astype(dt.newbyteorder(">")).tobytes()
        h = struct.pack(">HH", 0, len(shp)) + struct.pack(">%dI" % len(shp), *reversed(shp))
        return h + decode.encode(getattr(s, "stream", s.comp), raw, r)
    full = np.full(s.chunks, s.fillval(), dtype=dt)
    if getattr(s, "pad_garbage", False):
        full = core.rand_data(c, s.chunks, s.dtype, "full")
    full[tuple(slice(0, n) for n in a.shape)] = a
    return decode.encode(s.comp, full.astype(dt.newbyteorder("<")).tobytes(), r)


def put(p, b):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(b)


def make_shard(c, nslots, blobs):
    """blobs {slot: bytes}; data in any order, possibly with unused bytes in between"""
    r = c.rnd
    order = list(blobs)
    r.shuffle(order)
    body, ent = b"", {}
    for k in order:
        if r.random() < .3:
            body += bytes(r.randrange(256) for _ in range(r.randint(1, 9)))
        ent[k] = (len(body), len(blobs[k]))
        body += blobs[k]
    if r.random() < .2:
        body += b"junk"
    ix = b"".join(struct.pack("<QQ", *ent.get(k, (decode.EMPTY, decode.EMPTY))) for k in range(nslots))
    return body + ix + struct.pack("<I", decode.crc32c(ix))


def write(c, path, s, density=None):
    """-> (expected array, {stored chunk ids})"""
    r = c.rnd
    root(path, s.fmt)
    d = os.path.join(path, s.key)
    os.makedirs(d)
    name, j = metadata(c, s)
    w(d, name, j)
    a = np.full(s.shape, s.fillval(), dtype=s.dtype)
    density = r.choice([0.0, .3, .7, 1.0, 1.0]) if density is None else density
    st, shards = set(), {}
    for cid in core.all_chunks(s):
        if r.random() >= density:
            continue
        reg = core.chunk_region(s, cid)
        x = core.rand_data(c, [q.stop - q.start for q in reg], s.dtype)
        a[reg] = x
        st.add(cid)
        b = chunk_bytes(c, s, cid, x)
        if not s.shards:
            put(os.path.join(d, decode.key(_M(s), cid)), b)
        else:
            per = tuple(p // q for p, q in zip(s.shards, s.chunks))
            sid = tuple(i // n for i, n in zip(cid, per))
            k = int(np.ravel_multi_index(tuple(i % n for i, n in zip(cid, per)), per))
            shards.setdefault(sid, {})[k] = b
    for sid, blobs in shards.items():
        put(os.path.join(d, decode.key(_M(s), sid)), make_shard(c, int(np.prod([p // q for p, q in zip(s.shards, s.chunks)])), blobs))
    return a, st


class _M:
    def __init__(self, s):
        self.fmt, self.sep, self.enc = s.fmt, s.sep, s.enc
