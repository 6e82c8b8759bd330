from . import core
from .session import Session

# every format x dtype x codec is visited once, then random specifications
ENUM = [(f, d, co) for f in core.FORMATS for co in core.COMP[f] for d in (core.DTYPES if f == "zarr2" else core.PYTYPES)]


def case(c, i):
    r = c.rnd
    if i < len(ENUM):
        f, d, co = ENUM[(i * 67) % len(ENUM)]
        s = core.rand_spec(c, fmt=f, dtype=d, comp=co, cpp=d not in core.PYTYPES)
    else:
        if i % 25 == 7:
            return large(c, i)
        nd = r.choice([6, 7, 8]) if i % 40 == 9 else None
        s = core.rand_spec(c, cpp=r.random() < 0.4, ndim=nd, maxel=r.choice([300, 3000, 12000]), minchunks=r.choice([1, 2, 4]))
    se = Session(c, s, n_threads=r.choice([1, 1, 2, 4, 8]))
    c.sig = core.digest(s.desc(), i)
    c.nontrivial = max(s.grid) > 1
    c.sample = s.desc()
    se.check()
    for k in range(r.randint(5, 12)):
        se.random_write()
        if r.random() < 0.25:
            se.threads(r.choice([1, 1, 2, 3, 4, 8]))
        if r.random() < 0.2:
            se.reopen()
            c.ev("reopens")
        se.check_random()
        if r.random() < 0.35:
            se.check()
    se.check(how="getitem")
    se.reopen()
    se.threads(r.choice([1, 4]))
    for how in ("getitem", "cview"):
        se.check(how=how)
    # every single element position through a one-element read, for small datasets
    if se.model.size <= 60:
        import itertools
        for p in itertools.product(*[range(n) for n in s.shape]):
            se.check(p, tuple(x + 1 for x in p), how="getitem")


def large(c, i):
    r = c.rnd
    s = core.large_spec(c)
    se = Session(c, s, n_threads=r.choice([1, 2, 4, 17]))
    c.sig, c.sample = core.digest(s.desc(), i), s.desc()
    c.nontrivial = max(s.grid) > 1
    c.ev("large_datasets")
    for k in range(r.randint(2, 4)):
        se.random_write()
        se.threads(r.choice([1, 3, 33, 0, -1]))
        se.check_random()
    se.check()
    se.reopen()
    se.check(how="getitem")
