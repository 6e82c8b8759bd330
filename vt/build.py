"""Builds the code under test (always from /repo's current working tree) plus the native harness
parts, out of tree, in /verif/build/<what>-<content hash>.  Nothing of /repo is written to."""
import hashlib, os, shutil, subprocess, sys, glob, time, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(ROOT, "build"))
PY = "/opt/z5env/bin/python"
NB = "/opt/z5env/lib/python3.12/site-packages/nanobind"
NATIVE = os.path.join(ROOT, "native")

DEFS = ["-DWITH_BLOSC", "-DWITH_BZIP2", "-DWITH_LIBDEFLATE", "-DWITH_LZ4", "-DWITH_XZ",
        "-DWITH_ZLIB", "-DWITH_ZSTD"]
INC = ["-I" + os.path.join(REPO, "include"), "-I" + NB + "/include", "-I" + NB + "/ext/robin_map/include",
       "-I/usr/include/python3.12", "-I" + NATIVE]
LIBS = ["-lblosc", "-ldeflate", "-lz", "-lbz2", "-llzma", "-llz4", "-lzstd", "-lpthread", "-ldl"]
UB = "-fsanitize=address,undefined"
NOUB = "-fno-sanitize=vptr,null,alignment,function"
BASE = ["clang++", "-std=c++20", "-fPIC", "-fvisibility=hidden", "-gline-tables-only",
        "-fno-omit-frame-pointer", "-Wno-everything"]
VARIANTS = {
    "asan": BASE + ["-O0", UB, NOUB, "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-shared-libasan"],
    "plain": BASE + ["-O1"],
    "tsan": BASE + ["-O1", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def _files():
    out = []
    for d in ("include", "src/python/lib", "src/python/module"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hxx", ".cxx", ".hpp", ".cpp", ".h", ".py", ".hh", ".cc")):
                    out.append(os.path.join(r, f))
    return out


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def _run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, "a") as f:
        f.write(" ".join(cmd) + "\n" + r.stdout + "\n")
    if r.returncode:
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


class _Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _prune(prefix, keep):
    """old build directories of the same kind (other content hash) are dropped"""
    for d in sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime)[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def _ready(d):
    return os.path.exists(os.path.join(d, "ok"))


def ext(variant="asan", with_vt=True, s3=False):
    """-> (dir holding z5py/ and z5vt.so, env for running python against it);
    s3: with the S3 back end, compiled against the stand-in SDK of native/s3stub"""
    flags = list(VARIANTS[variant])
    nat = sorted(glob.glob(os.path.join(NATIVE, "z5vt*"))) + [os.path.join(NATIVE, "shim.c")]
    kind = variant
    if s3:
        with_vt, kind = False, "s3" + variant
        flags += ["-DWITH_S3", "-I" + os.path.join(NATIVE, "s3stub")]
        nat += sorted(f for f in glob.glob(os.path.join(NATIVE, "s3stub", "**"), recursive=True) if os.path.isfile(f))
    key = _digest(_files() + nat, " ".join(flags) + str(with_vt))
    d = os.path.join(BUILD, "ext-%s-%s" % (kind, key))
    with _Lock(os.path.join(BUILD, ".lock-ext-" + kind)):
        if not _ready(d):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d + "/z5py")
            log = d + "/build.log"
            nbo = os.path.join(BUILD, "nb_%s.o" % ("tsan" if variant == "tsan" else "plain"))
            jobs = []
            if not os.path.exists(nbo):
                jobs.append((["g++", "-std=c++17", "-O2", "-fPIC", "-fvisibility=hidden", "-w",
                              "-I" + NB + "/include", "-I" + NB + "/ext/robin_map/include", "-I/usr/include/python3.12",
                              "-DNB_COMPACT_ASSERTIONS", "-c", NB + "/src/nb_combined.cpp", "-o", nbo + "." + kind + ".tmp"], None))
            objs, vobjs = [], []
            srcs = sorted(glob.glob(os.path.join(REPO, "src/python/lib/*.cxx")))
            srcs.sort(key=lambda s: -os.path.getsize(s))
            for s in srcs:
                o = os.path.join(d, os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append((flags + DEFS + INC + ["-c", s, "-o", o], None))
            if s3:
                o = os.path.join(d, "s3stub.o")
                objs.append(o)
                jobs.append((flags + ["-c", os.path.join(NATIVE, "s3stub", "s3stub.cxx"), "-o", o], None))
            if with_vt:
                for part in range(4):
                    o = os.path.join(d, "z5vt%d.o" % part)
                    vobjs.append(o)
                    jobs.append((flags + DEFS + INC + ["-DZ5VT_PART=%d" % part, "-c",
                                                       os.path.join(NATIVE, "z5vt.cxx"), "-o", o], None))
            jobs.append((["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", d + "/shim.so",
                          os.path.join(NATIVE, "shim.c"), "-ldl", "-lpthread"], None))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: _run(j[0], log), jobs))
            if os.path.exists(nbo + "." + kind + ".tmp"):
                os.rename(nbo + "." + kind + ".tmp", nbo)
            _run(flags + ["-shared", "-o", d + "/z5py/_z5py.cpython-312-x86_64-linux-gnu.so"] + objs + [nbo] + LIBS, log)
            if with_vt:
                _run(flags + ["-shared", "-o", d + "/z5vt.cpython-312-x86_64-linux-gnu.so"] + vobjs + [nbo] + LIBS, log)
            for o in objs + vobjs:
                os.unlink(o)
            # the pure python part, as the project's build lays it out
            src = os.path.join(REPO, "src/python/module/z5py")
            for r, ds, fs in os.walk(src):
                for f in fs:
                    if f.endswith(".py"):
                        dst = os.path.join(d, "z5py", os.path.relpath(os.path.join(r, f), src))
                        os.makedirs(os.path.dirname(dst), exist_ok=True)
                        shutil.copyfile(os.path.join(r, f), dst)
            with open(d + "/z5py/_version.py", "w") as f:
                f.write('__version__ = "0"\n')
            open(os.path.join(d, "ok"), "w").close()
        _prune("ext-" + kind, 2)
    env = dict(os.environ)
    env["PYTHONPATH"] = d + ":" + ROOT
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env["VT_SHIM"] = d + "/shim.so"
    env["VT_EXT"] = d
    pre = []
    if variant == "asan":
        rt = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"],
                            capture_output=True, text=True).stdout.strip()
        pre = [rt, "/usr/lib/x86_64-linux-gnu/libstdc++.so.6"]
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:halt_on_error=1:alloc_dealloc_mismatch=0:"
                               "handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=8000:"
                               "quarantine_size_mb=32:malloc_context_size=12:detect_stack_use_after_return=0")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
        env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    env["VT_PRELOAD_BASE"] = " ".join(pre)
    if pre:
        env["LD_PRELOAD"] = " ".join(pre)
    return d, env


def binary(name, variant, srcs=None, extra=(), opt=None):
    """standalone C++ harness program native/<name>.cxx built against /repo's headers"""
    flags = [f for f in VARIANTS[variant] if f not in ("-fPIC", "-shared-libasan", "-fvisibility=hidden")]
    if opt:
        flags = [opt if f in ("-O0", "-O1") else f for f in flags]
    src = os.path.join(NATIVE, name + ".cxx")
    incs = [p for p in _files() if p.endswith((".hxx", ".h", ".hpp"))]
    deps = [f for e in extra if e.startswith("-I") for f in sorted(glob.glob(e[2:] + "/**", recursive=True)) if os.path.isfile(f)]
    key = _digest(incs + [src] + deps + sorted(glob.glob(NATIVE + "/*.h")), " ".join(flags) + " ".join(extra))
    d = os.path.join(BUILD, "bin-%s-%s-%s" % (name, variant, key))
    with _Lock(os.path.join(BUILD, ".lock-bin-%s-%s" % (name, variant))):
        if not _ready(d):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            _run(flags + DEFS + list(extra) + INC[:1] + ["-I" + NATIVE, src, "-o", os.path.join(d, name)] + LIBS, d + "/build.log")
            open(os.path.join(d, "ok"), "w").close()
        _prune("bin-%s-%s" % (name, variant), 2)
    return os.path.join(d, name)
