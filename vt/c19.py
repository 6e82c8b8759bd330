"""C19: a writer killed at any file operation leaves everything else readable. A forked child dies at the n-th mutating file operation."""
import os, shutil, sys
import numpy as np
from . import core, fault
from .core import same, Shim


def setup():
    fault.warm()


def sequence(c, w):
    """a history of operations, each made for the world the previous ones leave; creating and removing at most once"""
    r = c.rnd
    ops, made = [], False
    mk = [fault.op_write] * 4 + [fault.op_attr] * 2 + [fault.op_create]
    for k in range(r.choice([1, 1, 2, 3])):
        m = r.choice(mk)
        if m is fault.op_create:
            if made:
                m = fault.op_attr
            made = True
        op = m(c, w)
        ops.append((w, op))
        w = op["after"]
    if r.random() < .35:
        op = fault.op_remove(c, w)
        ops.append((w, op))
    return ops


def child(path, w, ops, nt, mode, n, progress):
    """never returns"""
    code = 3
    try:
        sys.stdout = sys.stderr
        h = fault.Handles(path, w, nt)
        sh = Shim()
        sh.arm(path, mode, Shim.MUT, n)
        for _, op in ops:
            op["run"](h)
            os.write(progress, b".")
        os.write(progress, b"%d;" % sh.counter)
        sh.disarm()
        code = 0
    except BaseException as e:
        sys.stderr.write("child: %r\n" % e)
        os.write(progress, ("!%r" % e).encode()[:3000])
    finally:
        os._exit(code)


def run_child(path, w, ops, nt, mode, n):
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a)
        child(path, w, ops, nt, mode, n, b)
    os.close(b)
    got = b""
    while True:
        x = os.read(a, 65536)
        if not x:
            break
        got += x
    os.close(a)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), got.decode(errors="replace")


def case(c, i):
    r = c.rnd
    f = ["n5", "zarr2", "zarr3", "sharded"][i % 4]
    w = fault.World(c, "zarr3" if f == "sharded" else f, sharded=f == "sharded", maxel=r.choice([60, 400, 400, 20000]))
    ops = sequence(c, w)
    nt = 1 if r.random() < .7 else r.choice([2, 4])
    names = " + ".join(op["kind"] for _, op in ops)
    # the undisturbed run counts the mutating file operations
    path = w.checkout("w0")
    rc, out = run_child(path, w, ops, nt, Shim.COUNT, 0)
    if rc != 0:
        c.fail("undisturbed:" + names, "%s: exit %s, %s" % (w.s.desc(), rc, out))
    bad = fault.differs(fault.state(path, w.s, ops[-1][1]["after"]), fault.expected(ops[-1][1]["after"]))
    if bad:
        c.fail("undisturbed:" + names, "%s: %s" % (w.s.desc(), bad))
    total = int(out.strip(".").split(";")[0])
    c.sig, c.sample = core.digest(i, names, w.s.desc()), "%s on %s: %d mutating file operations" % (names, w.s.desc(), total)
    c.nontrivial = total > 0
    for _, op in ops:
        c.ev("op_" + op["kind"])
    points = list(range(total))
    r.shuffle(points)
    budget = 16 if c.tier == "quick" else 60
    if len(points) <= budget:
        c.ev("fully_enumerated")
    for n in points[:budget]:
        path = w.checkout("w%d" % (n % 2))
        mode = r.choice([Shim.CRASH, Shim.CRASH_HALF])
        rc, out = run_child(path, w, ops, nt, mode, n)
        if rc == 0 and nt > 1:
            c.ev("not_reached")            # threads may need fewer operations
            continue
        if rc != 77:
            c.fail("crash-run:" + names, "%s: exit %s at operation %d of %d, %s" % (w.s.desc(), rc, n, total, out))
        done = out.count(".")
        c.ev("crashes")
        judge(c, path, ops[done][0], ops[done][1], "%s: killed at mutating file operation %d of %d (%s) of [%s], in %s (%s)" % (
            f, n, total, "before" if mode == Shim.CRASH else "half way", names, ops[done][1]["kind"], w.s.desc()))
        c.ev("earlier_operations", done)


def judge(c, path, w, op, where):
    """w: the world before the interrupted operation"""
    skip = set(op["skip"])
    new = op.get("new", [])
    if new:
        skip.add("top")
    got, exp = fault.state(path, w.s, w), fault.expected(w)
    bad = fault.differs(got, exp, skip)
    if bad:
        c.fail("damaged:" + op["kind"], "%s; %s" % (where, bad))
    if new:
        t, e = got["top"], exp["top"]
        if isinstance(t, Exception) or set(e) - set(t) or set(t) - set(e) - {q.split("/")[0] for q in new}:
            c.fail("damaged:" + op["kind"], "%s; names %s, expected %s" % (where, t, e))
    if "attr" in op:
        n, ks = op["attr"]
        g = got["attrs:" + n]
        a = op["after"].attrs[n]
        if isinstance(g, Exception) or (g != w.attrs[n] and g != a):
            c.fail("damaged:" + op["kind"], "%s; attributes of '%s': %r, before %r, after %r" % (where, n, str(g)[:500], str(w.attrs[n])[:300], str(a)[:300]))
        c.ev("attr_old" if g == w.attrs[n] else "attr_new")
    if op["targets"] and "gone" not in op:
        ds = core.open_file(path, w.s, "r")["d"]
        for cid in core.all_chunks(w.s):
            reg = core.chunk_region(w.s, cid)
            old, nw = w.data["d"][reg], op["after"].data["d"][reg]
            try:
                g = ds[reg]
            except Exception as e:
                if cid not in op["targets"]:
                    c.fail("damaged:" + op["kind"], "%s; chunk %s: %r" % (where, cid, e))
                c.ev("target_raised")
                continue
            if cid not in op["targets"]:
                c.ev("other_chunks")
                if not same(g, old):
                    c.fail("damaged:" + op["kind"], "%s; chunk %s: %s" % (where, cid, core.first_diff(g, old)))
            elif same(g, nw):
                c.ev("target_new")
            elif same(g, old):
                c.ev("target_old")
            else:
                c.fail("torn-chunk:" + op["kind"], "%s; target chunk %s is neither old nor new: %s" % (where, cid, core.first_diff(g, nw)))
    # repeating it, by a new process with new objects
    after = op["after"]
    f = core.open_file(path, w.s, "a")
    if new:
        for n in [q for q in new if q in f][:1]:
            del f[n]
        for n in new:
            if n in f:
                c.fail("repeat:" + op["kind"], "%s; %s cannot be deleted" % (where, n))
    if op.get("gone"):
        for n in op["gone"]:
            if n in f:
                e = core.raises(lambda: f.__delitem__(n))
                if e is not None:
                    c.fail("repeat:" + op["kind"], "%s; deleting %s again raised %r" % (where, n, e))
            if os.path.lexists(os.path.join(path, n)):
                c.fail("repeat:" + op["kind"], "%s; %s is still there" % (where, n))
    else:
        h = fault.Handles(path, w, 1)
        e = core.raises(lambda: op["run"](h))
        if e is not None:
            c.fail("repeat:" + op["kind"], "%s; repeating raised %r" % (where, e))
    bad = fault.differs(fault.state(path, w.s, after), fault.expected(after))
    if bad:
        c.fail("repeat:" + op["kind"], "%s; repeated; %s" % (where, bad))
    c.ev("repeats")
    if "d" in after.nodes and w.fmt != "n5":
        # nothing but valid chunks is left where chunks are looked up
        from . import decode
        a, _ = decode.load(decode.meta(os.path.join(path, "d"), w.fmt), False) if not leftovers(os.path.join(path, "d")) else (None, None)
        if a is not None and not same(a, after.data["d"]):
            c.fail("repeat:" + op["kind"], "%s; decoded: %s" % (where, core.first_diff(a, after.data["d"])))


def leftovers(d):
    return any(".tmp-" in q for q in core.snapshot(d))
