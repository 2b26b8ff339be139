"""P18: a run that is checkpointed and resumed is the uninterrupted run."""
import glob
import os
import re
import sys

from minipbt import Discard, Fail, Known, facet, main, require
from prog import Dir, Problem, errors, field, merge, points_cycle, robust, run, same

GAS = ("euler", "euler", "shallow water", "scalar conservation")


def read(d, p, c):
    return field(d, "r", "all", c, p.dim, points_cycle(d, "r", "all", c),
                 p.wrap)


def outputs(d):
    return sorted(int(re.search(r"-R(\d+)-inst", f).group(1))
                  for f in glob.glob(f"{d}/r-all-R*-instantaneous.dat"))


def mesh_cycles(d):
    return sorted(int(re.search(r"-R(\d+)-points", f).group(1))
                  for f in glob.glob(f"{d}/r-all-R*-points.dat"))


def adaptivity(s, p, times):
    # hanging nodes are supported for continuous elements only
    random = p.ansatz[0] == "c" and s.chance(.8)
    return {"adaptation strategy": "random adaptation" if random else
            "global refinement",
            "adaptation strategies": {
                "random adaptation: mersenne_twister_seed": s.range(1, 999)},
            "marking strategies": {
                "fixed number: refinement fraction":
                    round(s.uniform(.1, .5), 2),
                "fixed number: coarsening fraction":
                    round(s.uniform(0., .4), 2)},
            "time point selection strategies": {
                "adaptation timepoints": times}}


def check(a, b, p, what, shift=0.):
    require(abs(a.t - b.t - shift) <= 1e-10 * max(p.T, abs(a.t)),
            f"{what}: time {b.t!r} against {a.t!r} (shift {shift!r})")
    same(a, b, p.tol, what)


def problem(s, amr, **kw):
    # adaptation needs genuinely nodal elements without hanging periodic faces
    return Problem(s, GAS, dims=(2, 2, 2, 3), cells=110 if amr else 200,
                   ansatz=["cG Q1", "cG Q1", "dG Q0", "dG Q1", "cG Q2"]
                   if amr else None, periodic=not amr, **kw)


def resume(s, amr):
    p = problem(s, amr, speed=s.pick([0., 1.9]), steps=(2, 6))
    n = s.range(1, 4)
    g = float(f"{p.T / n:.12g}")
    T = n * g
    q = s.pick([1, 1, 1, 2])
    enforce = s.chance(.4)
    error = s.chance(.5)
    # the last step of an interrupted run must not be truncated
    legs = sorted({s.range(0, n - enforce) for _ in range(s.range(1, 3))})
    nps = [1 if amr else p.ranks(s, [1, 1, 2, 3])]
    nps += [p.ranks(s, [1, 1, 2, 3]) for _ in legs]
    cfg = p.with_(A={"timer granularity": g, "final time": T,
                     "enable checkpointing": True,
                     "timer checkpoint multiplier": q,
                     "enforce final time": enforce,
                     "enable compute error": error, "error normalize": False})
    acfg = cfg
    if amr:
        # adapt in the very first step; the resumed legs do not adapt
        acfg = merge(cfg, {"A - TimeLoop": {"enable mesh adaptivity": True},
                           "I - MeshAdaptor": adaptivity(s, p, [0.])})
    s.note("legs", f"{legs} of {n}, ranks {nps}, multiplier {q}, "
           f"amr {amr}, error {error}, enforce {enforce}")
    with Dir() as d:
        r = run(acfg, d)
        ea = errors(r.out)
        want = outputs(d)
        A = {c: read(d, p, c) for c in want}
    if amr and len(A) > 1 and 0 in legs:
        legs.remove(0)      # cycle 0 comes before the adaptation
        nps.pop()
    with Dir() as d:
        last = 0
        for k, (m, np) in enumerate(zip(legs + [n], nps)):
            lc = merge(cfg if k else acfg, {"A - TimeLoop": {
                "final time": m * g if k < len(legs) else T,
                "enforce final time": enforce and k == len(legs),
                "resume": k > 0}})
            if k:
                # the resumed run writes these again
                for f in glob.glob(f"{d}/r-all-R*"):
                    if int(re.search(r"-R(\d+)-", f).group(1)) >= last:
                        os.remove(f)
            r = run(lc, d, np)
            have = outputs(d)
            if k == 0 and amr and (legs and (have[-1] // q) * q == 0):
                raise Discard()
            last = (have[-1] // q) * q
            if k < len(legs) and enforce and read(d, p, have[-1]).t > T:
                raise Discard()     # one step from here to beyond the end
        eb = errors(r.out)
        have = outputs(d)
        require(want == have, f"output cycles {want} against {have}")
        for c in have:
            check(A[c], read(d, p, c), p, f"output {c}")
    require(set(ea) == set(eb), f"error norms {ea} against {eb}")
    scale = max([1.] + [abs(x) for v in A[have[-1]].v for x in v])
    for k in ea:
        require(abs(ea[k] - eb[k]) <= p.tol * 100 * scale,
                f"{k} = {eb[k]!r} against {ea[k]!r}")
    s.count("legs", len(legs) + 1)
    s.nontrivial(len(legs) > 0 and any(0 < m < n for m in legs))
    s.label("adapted" if amr else "fixed mesh")
    s.label(f"{len(legs)} resumes")


@facet("P18.resume", 80, 3000)
@robust
def _(s):
    resume(s, False)


@facet("P18.resume_adapted", 45, 1500)
@robust
def _(s):
    resume(s, True)


@facet("P18.resume_adapting", 35, 1500)
@robust
def _(s):
    """the mesh is adapted before or after the interruption"""
    p = problem(s, True, steps=(4, 9))
    n = s.range(2, 4)
    g = float(f"{p.T / n:.12g}")
    m = s.range(1, n - 1)
    # weighted towards the last step before the interruption
    times = [round((m * g if s.chance(.5) else p.T) *
                   (1. - s.unit() ** 2), 12)]
    amr = adaptivity(s, p, times)
    if amr["adaptation strategy"] == "global refinement" and s.chance(.3):
        times.append(round(times[0] + (p.T - times[0]) * s.unit(), 12))
    nps = [1, p.ranks(s, [1, 1, 2])]
    if amr["adaptation strategy"] != "global refinement":
        nps[1] = 1      # random marks depend on the partition
    cfg = p.with_(A={"timer granularity": g, "final time": n * g,
                     "enable checkpointing": True,
                     "enable mesh adaptivity": True}, I=amr)
    s.note("times", f"{times} of {n * g}, interrupted at {m * g}")
    with Dir() as d:
        run(cfg, d)
        A = {c: read(d, p, c) for c in outputs(d)}
        mesh = mesh_cycles(d)
    with Dir() as d:
        run(merge(cfg, {"A - TimeLoop": {"final time": m * g}}), d, nps[0])
        before = mesh_cycles(d)
        last = outputs(d)[-1]
        for f in glob.glob(f"{d}/r-all-R*"):
            if int(re.search(r"-R(\d+)-", f).group(1)) >= last:
                os.remove(f)
        run(merge(cfg, {"A - TimeLoop": {"resume": True}}), d, nps[1])
        try:
            have = outputs(d)
            require(list(A) == have, f"output cycles {list(A)} against {have}")
            for c in have:
                check(A[c], read(d, p, c), p, f"output {c}")
        except Fail:
            # adaptations that already happened are made again (recorded)
            if before != [0]:
                raise Known("P18-K1")
            raise
    s.nontrivial(mesh != [0])
    s.label("before" if before != [0] else
            "after" if mesh != [0] else "never")


@facet("P18.resume_at_time_zero", 30, 1500)
@robust
def _(s):
    """restarting the clock shifts an autonomous run"""
    p = problem(s, False, steps=(2, 6))
    np = p.ranks(s, [1, 1, 2])
    tiny = p.T * 1e-9       # every step is an output cycle
    cfg = p.with_(A={"timer granularity": tiny,
                     "enable checkpointing": True})
    f = s.uniform(0., .9)
    s.note("cut", f)
    s.note("ranks", np)
    with Dir() as d:
        run(cfg, d)
        A = {c: read(d, p, c) for c in outputs(d)}
    with Dir() as d:
        run(p.with_(A={"timer granularity": tiny, "final time": f * p.T,
                       "enable checkpointing": True}), d)
        m = outputs(d)[-1]
        t0 = A[m].t
        for f in glob.glob(f"{d}/r-all-R*"):
            os.remove(f)
        run(p.with_(A={"timer granularity": tiny, "final time": p.T - t0,
                       "enable checkpointing": True,
                       "resume": True, "resume at time zero": True}), d, np)
        have = outputs(d)
        require(have and have[0] == 0, f"output cycles {have}")
        for c in have:
            if c + m in A:
                check(A[c + m], read(d, p, c), p,
                      f"output {c} (uninterrupted {c + m})", t0)
        require(len(have) >= len(A) - m, f"{len(have)} outputs after resuming"
                f" at {m} of {len(A)}")
    s.nontrivial(m > 0 and len(have) > 1)


sys.exit(main())
