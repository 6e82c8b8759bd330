"""concurrent users: native stress programs under ThreadSanitizer / ASan with owner models, and Python threads on z5py objects"""
import os, re, subprocess, threading
import numpy as np
from . import core
from .core import same, first_diff
from .session import Session


def run_bin(c, name, args, tag, limit=100, env=None):
    """-> stdout; violations of the sanitizers and hangs are reported here"""
    e = dict(os.environ)
    e["LD_PRELOAD"] = e["VT_SHIM"] if env == "shim" else ""
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:history_size=4:report_signal_unsafe=0:suppressions=%s" % os.path.join(
        os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "tsan.supp")
    e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=1"
    e["LSAN_OPTIONS"] = ""
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    for attempt in range(2):
        try:
            p = subprocess.run([os.environ["VT_BIN_" + name]] + [str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=limit, text=True, errors="replace")
            break
        except subprocess.TimeoutExpired as t:
            if attempt:
                c.fail("deadlock:" + tag, "%s %s did not finish within %d s, twice; output %s" % (name, args, limit, (t.stdout or b"")[-500:]))
    out, err = p.stdout, p.stderr
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        fr = re.findall(r"#\d+ (z5::[\w:~]+)", err)
        c.fail("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), fr[0] if fr else "?"), "%s %s\n%s" % (name, args, err[:5000]))
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err) or re.search(r"(runtime error): ([^\n]{0,100})", err)
    if m:
        fr = re.findall(r"in (z5::[\w:~]+)", err)
        c.fail("asan:%s:%s" % (re.sub(r"\d+", "N", m.group(2)), fr[0] if fr else "?"), "%s %s\n%s" % (name, args, err[:5000]))
    for l in out.splitlines():
        if l.startswith("FAIL "):
            _, k, msg = (l + " ").split(" ", 2)
            if k == "harness":
                raise core.HarnessError(msg)
            c.fail(k + ":" + tag, "%s %s: %s" % (name, args, "; ".join(x for x in out.splitlines() if x.startswith("FAIL"))[:3000]))
        if l.startswith("EV "):
            _, n, k = l.split()
            c.ev(n, int(k))
    if p.returncode != 0 or "DONE" not in out:
        if p.returncode in (-9,):
            raise core.HarnessError("%s was killed" % name)
        c.fail("abort:%s:rc%s" % (tag, p.returncode), "%s %s\n%s\n%s" % (name, args, out[-1000:], err[-3000:]))
    return out


def setup():
    """the race detector works here"""
    e = dict(os.environ, LD_PRELOAD="", TSAN_OPTIONS="halt_on_error=0:exitcode=66")
    p = subprocess.run([os.environ["VT_BIN_pario"], "99", "1", "/nonexistent", "0"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if "ThreadSanitizer: data race" not in p.stderr:
        raise core.HarnessError("ThreadSanitizer does not work here: rc %s %s" % (p.returncode, p.stderr[-500:]))


def case(c, i):
    r = c.rnd
    if i % 6 == 5:
        return python_threads(c, i)
    k = i % 6 + i // 6 * 5
    sc = k % 18
    sc = 30 if sc >= 15 else sc
    c.sig, c.sample = core.digest(sc, c.rnd.getrandbits(40)), "scenario %d" % sc
    # one process under ThreadSanitizer, one with memory checks and delays at the file operations
    for n, (b, delay) in enumerate([("pario", r.choice([0, 0, 40])), ("pario_asan", r.choice([0, 30, 300]))]):
        d = os.path.join(c.dir, "p%d" % n)
        os.makedirs(d)
        seed = r.getrandbits(40)
        run_bin(c, b, [sc, seed, d, delay], b, env="shim" if delay else None)
        c.ev("processes_tsan" if n == 0 else "processes_asan")


def python_threads(c, i):
    r = c.rnd
    f = ["n5", "zarr2", "zarr3", "zarr3s"][i // 6 % 4]
    nth = r.choice([2, 3, 5, 8])
    several = r.random() < .5
    fmt = f[:5] if f != "n5" else f
    s = core.rand_spec(c, fmt=fmt, dtype=r.choice(core.PYTYPES), sharded=(f == "zarr3s") if fmt == "zarr3" else None, maxel=500, minchunks=2)
    # stretch axis 0 so that every thread owns a slab
    unit = s.shards[0] if s.shards else s.chunks[0]
    s.shape = (unit * (nth + 1) - r.randrange(s.chunks[0]),) + tuple(s.shape[1:])
    se = Session(c, s, n_threads=1)
    c.sig, c.sample = core.digest("py", s.desc(), i), "python threads " + s.desc()
    se.write((0,) * s.ndim, s.shape, core.rand_data(c, s.shape, s.dtype, "full"), "cview")
    model = se.model.copy()
    errs, bar = [], threading.Barrier(nth + 1)
    done = threading.Event()

    def handle():
        return core.open_file(se.path, s)[s.key] if several else se.ds

    def work(t):
        q = np.random.default_rng([c.index, t])
        try:
            ds = handle()
            lo0, hi0 = (t + 1) * unit, min((t + 2) * unit, s.shape[0])
            if hi0 <= lo0:
                bar.wait()
                return
            bar.wait()
            for _ in range(10):
                a = int(q.integers(lo0, hi0))
                b = int(q.integers(a + 1, hi0 + 1))
                reg = [slice(a, b)]
                for n in s.shape[1:]:
                    x = int(q.integers(0, n))
                    reg.append(slice(x, int(q.integers(x + 1, n + 1))))
                reg = tuple(reg)
                shp = [x.stop - x.start for x in reg]
                k = q.integers(0, 4)
                if k == 0:
                    got = ds[reg]
                    if not same(got, model[reg]):
                        errs.append("thread %d read other values at %s: %s" % (t, reg, first_diff(got, model[reg])))
                        return
                elif k == 1:
                    v = np.array(int(q.integers(0, 100))).astype(s.dtype)
                    ds[reg] = v.item()
                    model[reg] = v
                else:
                    d = q.integers(0, 100, size=shp).astype(s.dtype)
                    ds[reg] = d
                    model[reg] = d
        except Exception as e:
            errs.append("thread %d: %r" % (t, e))

    def reader():
        q = np.random.default_rng([c.index, 99])
        try:
            ds = handle()
            bar.wait()
            n = 0
            while not done.is_set() or n < 3:
                a = int(q.integers(0, unit))
                got = ds[a:unit]
                n += 1
                if not same(got, se.model[a:unit]):
                    errs.append("reader of untouched data: %s" % first_diff(got, se.model[a:unit]))
                    return
            c.ev("py_stable_reads", n)
        except Exception as e:
            errs.append("reader %r" % e)
    th = [threading.Thread(target=work, args=(t,)) for t in range(nth)]
    rd = threading.Thread(target=reader)
    for t in th + [rd]:
        t.start()
    for t in th:
        t.join()
    done.set()
    rd.join()
    if errs:
        c.fail("python-threads", "%s (%s)" % (errs[:3], s.desc()))
    se.model = model
    se.reopen()
    for nt in (1, 4):
        se.threads(nt)
        se.check(key="python-threads-final")
    c.ev("py_rounds")
