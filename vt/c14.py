"""Dataset indexing against the same index on a numpy array"""
import os
import numpy as np
from . import core
from .core import same


def one(r, n, kind=None):
    """one index element for an axis of length n -> (z5 index, numpy index)"""
    k = kind or r.choice(["int", "int", "neg", "slice", "slice", "slice", "open", "negslice", "beyond", "empty", "full", "npint", "one"])
    if k == "int":
        v = r.choice([0, n - 1, r.randrange(n)])
        return v
    if k == "neg":
        return -r.choice([1, n, r.randint(1, n)])
    if k == "npint":
        return r.choice([np.int64, np.int32, np.uint8, np.intp])(r.randrange(n) % 200 if n > 200 else r.randrange(n))
    if k == "full":
        return r.choice([slice(None), slice(0, n), slice(None, None, 1), slice(0, None), slice(None, n)])
    a, b = sorted([r.randint(0, n), r.randint(0, n)])
    if k == "one":
        a = r.randrange(n)
        return slice(a, a + 1)
    if k == "slice":
        return slice(a, b, r.choice([None, None, 1]))
    if k == "open":
        return r.choice([slice(a, None), slice(None, b), slice(None, -1), slice(1, None)])
    if k == "negslice":
        return slice(r.choice([a, a - n if a < n else a]), r.choice([b, b - n if b < n else b, -1]))
    if k == "beyond":
        return r.choice([slice(a, n + r.randint(1, 9)), slice(n + r.randint(0, 3), n + 5), slice(a, 2 ** 31 + 5), slice(a, 2 ** 63), slice(n, None), slice(n + 4, None)])
    return r.choice([slice(b, a), slice(a, a), slice(0, 0), slice(n, n), slice(None, 0), slice(5, 3), slice(-1, 0), slice(-1, -1)])


def index(r, shape):
    nd = len(shape)
    k = r.random()
    if k < .08:
        return r.choice([Ellipsis, (), (Ellipsis,), slice(None)])
    if k < .25:                             # ellipsis somewhere (possibly standing for no axis)
        n = r.randint(0, nd)
        p = r.randint(0, n)
        left = [one(r, shape[d]) for d in range(p)]
        right = [one(r, shape[nd - (n - p) + d]) for d in range(n - p)]
        return tuple(left + [Ellipsis] + right)
    n = r.choice([nd, nd, nd, r.randint(1, nd)])
    t = tuple(one(r, shape[d]) for d in range(n))
    if n == 1 and r.random() < .5:
        return t[0]
    if r.random() < .08:
        t = tuple(one(r, m, "int") for m in shape)
    return t


def bad_index(r, shape):
    """-> (index, description) that has to raise"""
    nd = len(shape)
    base = [slice(None)] * nd
    d = r.randrange(nd)
    k = r.choice(["step", "step", "many", "range", "range", "list", "array", "mask", "none", "str", "ellipses", "negstep", "listint"])
    n = shape[d]
    if k == "step":
        base[d] = slice(r.choice([None, 0]), None, r.choice([2, 3, n + 1]))
    elif k == "negstep":
        base[d] = slice(None, None, -1)
    elif k == "many":
        base = base + [r.choice([0, slice(None), slice(0, 1)])]
        if r.random() < .3:
            base.append(Ellipsis)
    elif k == "range":
        base[d] = r.choice([n, n + 1, -n - 1, -n - 7, 2 ** 31, 2 ** 63, -2 ** 63, 2 ** 64])
        base = base[:d + 1] if r.random() < .5 else base
    elif k == "list":
        base[d] = [0]
    elif k == "listint":
        return [0] * nd, k
    elif k == "array":
        base[d] = np.array([0, 0])
    elif k == "mask":
        return np.ones(shape, bool), k
    elif k == "none":
        base[d] = None
    elif k == "str":
        base[d] = "a"
    elif k == "ellipses":
        base = [Ellipsis, Ellipsis]
    return (base[0] if len(base) == 1 and r.random() < .5 and k != "many" else tuple(base)), k


def sel_shape(shape, idx):
    """the shape of the selection with integer axes kept as 1"""
    t = idx if isinstance(idx, tuple) else (idx,)
    if Ellipsis in [x for x in t if x is Ellipsis]:
        p = [x is Ellipsis for x in t].index(True)
        t = t[:p] + (slice(None),) * (len(shape) - len(t) + 1) + t[p + 1:]
    t = t + (slice(None),) * (len(shape) - len(t))
    out = []
    for x, n in zip(t, shape):
        out.append(len(range(*x.indices(n))) if isinstance(x, slice) else 1)
    return tuple(out)


def case(c, i):
    r = c.rnd
    f = core.FORMATS[i % 3]
    dtype = core.PYTYPES[i // 3 % 10]
    s = core.rand_spec(c, fmt=f, dtype=dtype, comp="raw", maxel=600)
    from .session import Session
    se = Session(c, s, via="py")
    se.threads(r.choice([1, 1, 3]))
    a = core.rand_data(c, s.shape, dtype)
    m = a.copy()
    ds = se.ds
    ds[...] = a
    c.sig, c.sample = core.digest(s.desc(), i), s.desc()
    if (tuple(ds.shape), ds.ndim, ds.size, np.dtype(ds.dtype), len(ds)) != (m.shape, m.ndim, m.size, m.dtype, len(m)):
        c.fail("attributes", "%s: shape %s ndim %s size %s dtype %s len %s" % (s.desc(), ds.shape, ds.ndim, ds.size, ds.dtype, len(ds)))
    for _ in range(60):
        k = r.random()
        if k < .55:
            read(c, ds, m)
        elif k < .8:
            assign(c, ds, m)
        elif k < .92:
            bad(c, ds, m)
        elif k < .95:
            clamped(c, ds, m)
        elif k < .98:
            direct(c, ds, m)
        else:
            convert(c, ds, m)
    out = ds[...]
    if not same(out, m):
        c.fail("final-content", "%s: %s; %s" % (s.desc(), core.first_diff(out, m), c.log[-20:]))


def read(c, ds, m):
    idx = index(c.rnd, m.shape)
    c.note("read", idx)
    exp = m[idx]
    c.ev("index_reads")
    try:
        got = ds[idx]
    except Exception as e:
        c.fail("read-raised", "ds[%s] of shape %s raised %r" % (idx, m.shape, e))
    if np.ndim(exp) == 0:               # (a scalar or a 0-d array, numpy returns the latter if there is an ellipsis)
        c.ev("scalar_reads")
        if not isinstance(got, (np.generic, np.ndarray)) or np.shape(got) != () or got.dtype != exp.dtype or not same(np.asarray(got), np.asarray(exp)):
            c.fail("scalar-read", "ds[%s] of shape %s: %r (%s), expected %r" % (idx, m.shape, got, type(got), exp))
        return
    if 0 in exp.shape:
        c.ev("empty_reads")
    if not isinstance(got, np.ndarray) or not same(got, exp):
        c.fail("read", "ds[%s] of shape %s: %s" % (idx, m.shape, core.first_diff(np.asarray(got), exp)))


def scalar(c, dt):
    r = c.rnd
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        v = r.choice([0, 1, ii.max, ii.min, r.randint(0, 100), 3.7, True, np.float32(2.5), dt.type(5), np.int8(3)])
        if r.random() < .2 and ii.min < 0:
            v = r.choice([-1, -2.5, np.int64(-7)])
        return v
    return r.choice([0, 1.5, -2.25, float("nan"), float("inf"), -float("inf"), 3, True, np.float64(1e10), dt.type(7.5), np.int32(-4), 1e-3])


def assign(c, ds, m):
    r = c.rnd
    idx = index(r, m.shape)
    shp = sel_shape(m.shape, idx)
    before = m.copy()
    if r.random() < .35:
        v = scalar(c, m.dtype)
        c.note("assign scalar", idx, repr(v))
        ds[idx] = v
        m[idx] = v
        c.ev("scalar_assignments")
    else:
        view = m[idx]
        k = r.choice(["sel", "sel", "numpy", "strip", "lead", "trail", "list", "cast"])
        data = core.rand_data(c, shp, m.dtype.name)
        v = data
        must = True
        if k == "numpy":                        # the shape numpy gives the selection; integer axes in between are not supported by z5
            v = data.reshape(np.shape(view))
            must = False
            if v.ndim == 0:
                v = data
        elif k == "strip":
            t = list(shp)
            while len(t) > 1 and r.random() < .8:
                if t[0] == 1:
                    t.pop(0)
                elif t[-1] == 1:
                    t.pop()
                else:
                    break
            v = data.reshape(t)
        elif k == "lead":
            v = data.reshape((1,) * r.randint(1, 2) + shp)
        elif k == "trail":
            v = data.reshape(shp + (1,) * r.randint(1, 2))
        elif k == "list":
            v = data.tolist()
            if m.dtype.kind == "f" and 0 in shp:
                return
        elif k == "cast":
            other = r.choice(["float64", "int32", "int64", "uint8", "float32"])
            if m.dtype.kind in "iu":
                other = r.choice(["int8", "int16", "float32", "uint8"])
                data = c.np.integers(0, 100, size=shp).astype(m.dtype)
            else:
                data = c.np.integers(-100, 100, size=shp).astype(m.dtype)
                other = r.choice(["float64", "float32", "int32", "int16"])
            v = np.asarray(data.astype(other))
            data = v.astype(m.dtype)
        if k in ("sel", "lead", "trail") and r.random() < .3 and isinstance(v, np.ndarray):
            v = np.asfortranarray(v)
        c.note("assign", k, idx, np.shape(v))
        try:
            ds[idx] = v
        except Exception as e:
            if must:
                c.fail("assignment-raised", "ds[%s] = %s array of shape %s (%s), dataset shape %s: %r" % (idx, m.dtype, np.shape(v), k, m.shape, e))
            c.ev("unsupported_assignments")
        else:
            m[idx] = data.reshape(np.shape(view))
            c.ev("array_assignments")
            c.ev("assign_" + k)
    got = ds[...]
    if not same(got, m):
        c.fail("assignment", "ds[%s] = ... (%s): %s" % (idx, c.log[-1], core.first_diff(got, m)))


def bad(c, ds, m):
    r = c.rnd
    idx, k = bad_index(r, m.shape)
    c.note("bad", k, idx)
    c.ev("bad_indices")
    e = core.raises(lambda: ds[idx])
    if e is None:
        c.fail("unsupported-read:" + k, "ds[%s] of shape %s did not raise" % (idx, m.shape))
    e = core.raises(lambda: ds.__setitem__(idx, r.choice([1, np.ones(m.shape, m.dtype)])))
    if e is None:
        c.fail("unsupported-assignment:" + k, "ds[%s] = ... of shape %s did not raise" % (idx, m.shape))
    got = ds[...]
    if not same(got, m):
        c.fail("unsupported-side-effect:" + k, "%s: %s" % (idx, core.first_diff(got, m)))


def clamped(c, ds, m):
    """bounds more than the axis length below zero: nothing is selected or it raises"""
    r = c.rnd
    d = r.randrange(m.ndim)
    n = m.shape[d]
    x = -n - r.randint(1, 9)
    t = [slice(None)] * m.ndim
    t[d] = r.choice([slice(x, None), slice(x, n), slice(0, x), slice(None, x), slice(x, -1), slice(x, x + 1), slice(-n, x)])
    c.note("clamped", t)
    c.ev("clamped_indices")
    try:
        got = ds[tuple(t)]
    except Exception:
        pass
    else:
        if got.size != 0:
            c.fail("clamped-read", "ds[%s] of shape %s selects %s" % (t, m.shape, got.shape))
    try:
        ds[tuple(t)] = 1
    except Exception:
        pass
    got = ds[...]
    if not same(got, m):
        c.fail("clamped-assignment", "%s: %s" % (t, core.first_diff(got, m)))


def direct(c, ds, m):
    """read_direct / write_direct with selections on both sides"""
    r = c.rnd
    lo, hi = core.rand_roi(c, m.shape)
    shp = tuple(b - a for a, b in zip(lo, hi))
    pad = [r.randint(0, 2) for _ in shp]
    big = core.rand_data(c, tuple(n + p + 1 for n, p in zip(shp, pad)), m.dtype.name)
    dsel = tuple(slice(p, p + n) for p, n in zip(pad, shp))
    c.ev("direct")
    if r.random() < .5:
        exp = big.copy()
        exp[dsel] = m[core.sl(lo, hi)]
        ds.read_direct(big, core.sl(lo, hi), dsel)
        if not same(big, exp):
            c.fail("read-direct", "%s %s: %s" % (lo, hi, core.first_diff(big, exp)))
    else:
        ds.write_direct(big, dsel, core.sl(lo, hi))
        m[core.sl(lo, hi)] = big[dsel]


def convert(c, ds, m):
    """the whole dataset as an array, in another type, and into / from an array of the same shape"""
    r = c.rnd
    c.ev("conversions")
    k = r.randrange(4)
    if k == 0:
        got = np.asarray(ds)
        if not same(got, m):
            c.fail("asarray", core.first_diff(got, m))
    elif k == 1:
        other = r.choice(core.PYTYPES)
        with np.errstate(all="ignore"):
            if m.dtype.kind == "f" and np.dtype(other).kind != "f":     # (only values that have a defined result)
                v = np.nan_to_num(np.clip(m, 0, 100)).astype(m.dtype)
                ds[...] = v
                m[...] = v
            exp = m.astype(other)
            got = np.asarray(ds, dtype=other)
        if got.dtype != exp.dtype or not same(got, exp):
            c.fail("asarray", "as %s: %s" % (other, core.first_diff(got, exp)))
    elif k == 2:
        out = np.ones(m.shape, m.dtype)
        ds.read_direct(out)
        if not same(out, m):
            c.fail("read-direct", core.first_diff(out, m))
    else:
        v = core.rand_data(c, m.shape, m.dtype.name)
        ds.write_direct(v)
        m[...] = v
