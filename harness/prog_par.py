"""P17: results do not depend on ranks and threads."""
import sys

from minipbt import Fail, Known, facet, main, require
from prog import Dir, Problem, errors, field, numbers, robust, run, same


def observe(d, p, series=True):
    r = {"field": [field(d, "r", "all", c, p.dim, 0, p.wrap) for c in (0, 1)]}
    return r


def compare(a, b, what, TOL):
    for c, (x, y) in enumerate(zip(a["field"], b["field"])):
        require(abs(x.t - y.t) <= TOL * max(abs(x.t), 1e-30),
                f"{what}: output {c} at time {x.t!r} against {y.t!r}")
        m = max(abs(m) for m in x.mass)
        same(x, y, TOL if c else 1e-13, f"{what}, output {c}")


def series(d, name):
    import glob
    fs = sorted(glob.glob(f"{d}/r-{name}-R*-space_averaged_time_series.dat"))
    require(len(fs) == 1, "expected one time series, found ", len(fs))
    return numbers(fs[0])[0]


def parallel(s, np, threads):
    p = Problem(s)
    if p.dim == 1 and np > 1 and p.periodic[0]:
        # the two ends of a periodic interval live on different ranks and
        # neither is a ghost of the other (recorded finding)
        try:
            decide(s, p, np, threads)
        except Fail:
            raise Known("P17-K1")
    else:
        decide(s, p, np, threads)


def decide(s, p, np, threads):
    cfg = p.with_(A={"enable compute error": True, "error normalize": False},
                  K={"interior manifolds": "all : 0*x : instantaneous, "
                     "avg : 0*x : space_averaged",
                     "boundary manifolds": "bd : 0*x : instantaneous "
                     "space_averaged"})
    s.note("np", np)
    s.note("threads", threads)
    with Dir() as d:
        r1 = run(cfg, d)
        a, ea = observe(d, p), errors(r1.out)
        sa, ba = series(d, "avg"), series(d, "bd")
    with Dir() as d:
        r2 = run(cfg, d, np, threads)
        b, eb = observe(d, p), errors(r2.out)
        sb, bb = series(d, "avg"), series(d, "bd")
    TOL = p.tol
    what = f"np={np} threads={threads}"
    compare(a, b, what, TOL)
    require(set(ea) == set(eb), f"{what}: error norms {ea} against {eb}")
    scale = max([1.] + [abs(x) for v in a["field"][1].v for x in v])
    for k in ea:
        require(abs(ea[k] - eb[k]) <= TOL * 100 * scale or ea[k] == eb[k],
                f"{what}: {k} = {ea[k]!r} against {eb[k]!r}")
    for n, x, y in (("interior", sa, sb), ("boundary", ba, bb)):
        require(len(x) == len(y), f"{what}: {n} time series has {len(x)} "
                f"against {len(y)} entries")
        for u, v in zip(x, y):
            for q, w in zip(u, v):
                require(q == w or abs(q - w) <= TOL * 10 * scale ** 2 or
                        (q != q and w != w),
                        f"{what}: {n} average {u} against {v}")
    require(len(sa) >= 2, "no step was made")
    s.nontrivial(len(sa) > 2 or p.steps == 1)
    s.label(f"np {np}")
    s.count("steps", len(sa) - 1)


@facet("P17.mpi", 220, 6000)
@robust
def _(s):
    parallel(s, s.range(2, 4), s.pick([1, 1, 2]))


@facet("P17.threads", 90, 2000)
@robust
def _(s):
    parallel(s, 1, s.range(2, 5))


sys.exit(main())
