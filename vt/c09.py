"""C09: failed I/O is reported and damages nothing else. A preloaded shim fails the n-th file operation of one z5 call."""
import errno, os, shutil
import numpy as np
from . import core, fault
from .core import fn, same, sl, Shim

ERRS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EIO, errno.EDQUOT, errno.EMFILE, errno.EINTR]
ALL = (1 << 12) - 1
QUERY = (1 << Shim.STAT) | (1 << Shim.OPENDIR)


def setup():
    fault.warm()


def run_faulty(c, sh, w, op, n, mode, mask, err, i):
    """one fault at event n; -> True if the fault was hit"""
    path = w.checkout("w%d" % (i % 2))
    h = fault.Handles(path, w, op.get("nt", 1))
    if "prep" in op:
        op["prep"](h)
    before = core.snapshot(path) if op.get("read") else None
    box = {}

    def go():
        box["v"] = op["run"](h)
    # the shim watches every path with this prefix (the new containers, too)
    sh.arm(os.path.splitext(path)[0], mode, mask, n, err)
    try:
        e = core.raises(go)
    finally:
        hits, last = sh.hits, sh.last
        sh.disarm()
    where = "%s %s, %s errno %s at %s of mask %x (%s)" % (w.fmt, op["kind"], ["", "fail", "", "", "short", "sticky"][mode], errno.errorcode[err], last, mask, w.s.desc())
    if not hits:
        return False
    c.ev("faults")
    c.ev("fault_" + last.split("#")[0])
    if isinstance(e, MemoryError):
        raise core.HarnessError("memory")
    if op.get("read"):
        d = core.snap_diff(before, core.snapshot(path))
        if d:
            c.fail("read-changed-files:" + op["kind"], "%s: %s" % (where, d[:5]))
        if e is None:
            c.ev("reads_completed")
            if not fault.equal(box["v"], op["value"]):
                c.fail("wrong-read:" + op["kind"], "%s: returned %s, true value %s" % (where, repr(box["v"])[:300], repr(op["value"])[:300]))
        else:
            c.ev("reads_raised")
        # usable afterwards
        v = op["run"](h)
        if not fault.equal(v, op["value"]):
            c.fail("unusable:" + op["kind"], "%s: afterwards %s, true value %s" % (where, repr(v)[:300], repr(op["value"])[:300]))
        return True
    if e is None:
        c.ev("writes_completed")
        bad = fault.differs(fault.state(path, w.s, op["after"]), fault.expected(op["after"]))
        if bad:
            c.fail("silent-failure:" + op["kind"], "%s returned normally; %s" % (where, bad))
        gone_ok(c, path, op, where)
        new_container(c, h, w, op, where)
        return True
    c.ev("writes_raised")
    check_others(c, path, w, op, where)
    # the object stays usable
    if op.get("newfile"):
        e = core.raises(lambda: op["run"](h))
        if e is not None and (mode != Shim.FAIL or op["newfile"] == "x") and os.path.exists(h.where):
            if op["newfile"] == "x" and core.raises(lambda: new_container(c, h, w, op, where)) is None:
                e = None
            else:
                shutil.rmtree(h.where)
                e = core.raises(lambda: op["run"](h))
        if e is not None:
            c.fail("unusable:" + op["kind"], "%s: creating again raised %r" % (where, e))
        new_container(c, h, w, op, where)
    elif op.get("new"):
        retry_create(c, path, h, op, where, mode != Shim.FAIL)
    elif op["repeat"]:
        e = core.raises(lambda: op["run"](h))
        if e is not None:
            c.fail("unusable:" + op["kind"], "%s: repeating raised %r" % (where, e))
    elif op.get("gone"):
        for n in op["gone"]:       # deleting what is left must work
            if "/" not in n or op["gone"][0].split("/")[0] != n.split("/")[0] or n == op["gone"][0]:
                f = core.open_file(path, w.s, "a")
                if n in f:
                    e = core.raises(lambda: f.__delitem__(n))
                    if e is not None:
                        c.fail("unusable:" + op["kind"], "%s: deleting again raised %r" % (where, e))
    else:
        op["run"](h)
    bad = fault.differs(fault.state(path, w.s, op["after"]), fault.expected(op["after"]))
    if bad:
        c.fail("not-repaired:" + op["kind"], "%s; repeated; %s" % (where, bad))
    gone_ok(c, path, op, where)
    c.ev("repeats")
    # and so do the other objects of the handles
    if "d" in op["after"].nodes:
        x = core.rand_data(c, w.s.shape, w.s.dtype, "full")
        h.ds[...] = x
        if not same(h.ds[...], x):
            c.fail("unusable:write", where)
    return True


def new_container(c, h, w, op, where):
    if op.get("newfile"):
        f = core.open_file(h.where, w.s, "r")
        if sorted(f.keys()) or {k: v for k, v in fault.attrs_of(f).items() if k != "n5"}:
            c.fail("silent-failure:" + op["kind"], "%s: the container holds %s" % (where, sorted(f.keys())))
        f = core.open_file(h.where, w.s, "a")
        f.create_group("g").attrs["x"] = 1
        if core.open_file(h.where, w.s, "r")["g"].attrs["x"] != 1:
            c.fail("silent-failure:" + op["kind"], where)
        del f["g"]


def gone_ok(c, path, op, where):
    f = core.open_file(path, os.path.splitext(path)[1] == ".n5" and "n5" or "zarr2", "r") if op.get("gone") else None
    for n in op.get("gone", ()):
        if n in f or os.path.exists(os.path.join(path, n)):
            c.fail("silent-failure:" + op["kind"], "%s: %s is still there" % (where, n))


def check_others(c, path, w, op, where):
    skip = set(op["skip"])
    if op.get("new"):
        skip.add("top")
    got, exp = fault.state(path, w.s, w), fault.expected(w)
    bad = fault.differs(got, exp, skip)
    if bad:
        c.fail("damaged-other:" + op["kind"], "%s raised; %s" % (where, bad))
    if "attr" in op:
        # the other attributes of the same object
        n, ks = op["attr"]
        g = got["attrs:" + n]
        if isinstance(g, Exception):
            c.fail("damaged-other:" + op["kind"], "%s raised; attributes: %r" % (where, g))
        for k, v in w.attrs[n].items():
            if k not in ks and g.get(k, "gone") != v:
                c.fail("damaged-other:" + op["kind"], "%s raised; attribute %s: %r" % (where, k, g.get(k, "gone")))
        for k in set(g) - set(w.attrs[n]) - ks:
            c.fail("damaged-other:" + op["kind"], "%s raised; attribute %s appeared" % (where, k))
    if op["targets"] and "gone" not in op:
        ds = core.open_file(path, w.s, "r")["d"]
        for cid in core.all_chunks(w.s):
            if cid in op["targets"]:
                continue
            reg = core.chunk_region(w.s, cid)
            e = core.raises(lambda: ds[reg])
            if e is not None or not same(ds[reg], w.data["d"][reg]):
                c.fail("damaged-other:" + op["kind"], "%s raised; chunk %s: %s" % (where, cid, e if e is not None else core.first_diff(ds[reg], w.data["d"][reg])))
            c.ev("other_chunks")


def retry_create(c, path, h, op, where, sticky):
    """creating again works, unless the node is complete already"""
    e = core.raises(lambda: op["run"](h))
    if e is None:
        return
    f = core.open_file(path, h.w.s, "a")
    if sticky:
        # undoing the half creation failed as well: what is left can be deleted
        for n in op["new"]:
            if n in f and core.raises(lambda: f.__delitem__(n)) is None:
                break
        else:
            n = None
        e2 = core.raises(lambda: op["run"](h))
        if n and e2 is None:
            c.ev("half_nodes_deleted")
            return
        c.fail("unusable:" + op["kind"], "%s: creating again raised %r, after deleting %s %r" % (where, e, n, e2))
    if isinstance(e, KeyError):
        last = op["new"][-1]
        st, ex = fault.state(path, h.w.s, op["after"]), fault.expected(op["after"])
        if not fault.differs(st, ex):
            return
        if op["kind"] == "create:data" and last in f and not fault.differs(st, ex, {"data:" + last}):
            f[last][:] = op["after"].data[last]      # the dataset was created and only its data is missing
            return
    c.fail("unusable:" + op["kind"], "%s: creating again raised %r" % (where, e))


def case(c, i):
    r = c.rnd
    sh = Shim()
    kinds = ["n5", "zarr2", "zarr3", "sharded"]
    f = kinds[i % 4]
    k = i // 4 % 10
    w = fault.World(c, "zarr3" if f == "sharded" else f, sharded=f == "sharded", maxel=r.choice([60, 400, 400, 20000]))
    mk = [fault.op_write, fault.op_write, fault.op_write, fault.op_attr, fault.op_create, fault.op_remove, fault.op_read, fault.op_read, fault.op_meta, fault.op_attr][k]
    op = mk(c, w)
    op["nt"] = 1 if r.random() < .7 else r.choice([2, 4])
    # the undisturbed run: works, and counts the file operations
    path = w.checkout("w0")
    h = fault.Handles(path, w, op["nt"])
    masks = [Shim.MUT, Shim.MUT | Shim.RD | QUERY, Shim.RD, QUERY]
    box = {}
    if "prep" in op:
        op["prep"](h)
    sh.arm(os.path.splitext(path)[0], Shim.COUNT, ALL)
    try:
        op_v = op["run"](h)
    finally:
        n = {m: sum(sh.l.vt_count(q) for q in range(12) if m >> q & 1) for m in masks}
        sh.disarm()
    if op.get("read"):
        if not fault.equal(op_v, op["value"]):
            c.fail("undisturbed-read:" + op["kind"], "%s: %s, expected %s" % (w.s.desc(), repr(op_v)[:300], repr(op["value"])[:300]))
        masks = [Shim.RD, QUERY]
    else:
        bad = fault.differs(fault.state(path, w.s, op["after"]), fault.expected(op["after"]))
        if bad:
            c.fail("undisturbed:" + op["kind"], "%s; %s" % (w.s.desc(), bad))
    c.sig, c.sample = core.digest(i, op["kind"], w.s.desc()), "%s on %s: %s file operations" % (op["kind"], w.s.desc(), n)
    c.ev("op_" + op["kind"])
    budget = {Shim.MUT: 8, Shim.RD: 6, QUERY: 3, Shim.MUT | Shim.RD | QUERY: 4}
    plan = []
    for m in masks:
        q = list(range(n[m]))
        r.shuffle(q)
        plan += [(m, x) for x in q[:budget[m] * (1 if c.tier == "quick" else 4)]]
    c.nontrivial = bool(plan)
    for j, (m, q) in enumerate(plan):
        mode = r.choice([Shim.FAIL, Shim.FAIL, Shim.STICKY, Shim.SHORT] if m & Shim.MUT else [Shim.FAIL, Shim.FAIL, Shim.STICKY])
        err = r.choice(ERRS)
        if err == errno.EINTR and mode != Shim.FAIL:      # interrupted for ever is no error, callers may retry
            err = errno.EIO
        run_faulty(c, sh, w, op, q, mode, m, err, j)
