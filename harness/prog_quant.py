"""P24: the quantities of interest are the averages they claim to be."""
import glob
import math
import os
import re
import sys

from minipbt import Discard, Fail, facet, main, require
from prog import Dir, Problem, numbers, robust, run, stamp


def vec(rows, n):
    return [r[:n] for r in rows]


class Table:
    """positions and masses of a manifold"""

    def __init__(self, f, dim, boundary):
        rows, _ = numbers(f)
        self.x = [tuple(r[:dim]) for r in rows]
        self.mass = [r[-1] for r in rows]
        self.rest = [tuple(r[dim:-1]) for r in rows]
        # (a degree of freedom of a discontinuous element or of a corner with
        # several normals appears several times at the same position)
        self.boundary = boundary


def key(x):
    return tuple(math.floor(a * 1e7 + .5) for a in x)


def trapezoid(t, v):
    """v[k][i][c] over times t"""
    T = t[-1] - t[0]
    out = []
    for i in range(len(v[0])):
        r = [0.] * len(v[0][0])
        for k in range(len(t) - 1):
            for c in range(len(r)):
                r[c] += .5 * (t[k + 1] - t[k]) * (v[k][i][c] + v[k + 1][i][c])
        out.append([a / T for a in r])
    return out


def levelset(s, p):
    """(formula, predicate)"""
    i = s.range(0, p.dim - 1)
    x = "xyz"[i]
    n = p.sub[i] * 2 ** p.refine
    c = p.L[i] * s.range(0, n) / n
    kind = s.range(0, 3)
    if kind == 0:
        return "0*x", lambda q: True
    if kind == 1:
        return f"{x}-{c!r}", lambda q: abs(q[i] - c) < 1e-12
    if kind == 2:
        return f"{x}*({x}-{p.L[i]!r})", lambda q: abs(
            q[i] * (q[i] - p.L[i])) < 1e-12
    return (f"abs({x}-{c!r})+({x}-{c!r})",
            lambda q: abs(q[i] - c) + (q[i] - c) < 1e-12)


def model(times, g, mult):
    """output cycle -> step for the quantities written"""
    out, c = {}, 0
    for k, t in enumerate(times):
        if t >= c * g:
            if c % mult == 0:
                out[c] = k
            c += 1
    return out


def multiset(a, b, tol, what):
    """rows of two tables agree in some order at the same position"""
    require(set(a) == set(b), f"{what}: different positions")
    for k in a:
        x, y = list(a[k]), list(b[k])
        require(len(x) == len(y), f"{what}: {len(x)} against {len(y)} entries "
                f"at {k}")
        for u in x:
            m = min(range(len(y)), key=lambda j: max(
                abs(p - q) for p, q in zip(u, y[j])))
            e = max(abs(p - q) / max(1., abs(q)) for p, q in zip(u, y[m]))
            require(e <= tol, f"{what}: {u} against {y[m]} at {k} "
                    f"(relative difference {e:.2e})")
            y.pop(m)


def collect(x, rows):
    r = {}
    for p, v in zip(x, rows):
        r.setdefault(key(p), []).append(tuple(v))
    return r


@facet("P24.quantities", 120, 4000)
@robust
def _(s):
    p = Problem(s, dims=(1, 1, 2, 2, 3), cells=70, steps=(3, 10))
    np = s.pick([1, 1, 2])
    if p.dim == 1 or p.wrap:
        np = 1      # (the partition decides which side of a period is kept)
    mult = s.pick([1, 1, 2, 3])
    clear = s.chance(.5)
    g = p.T / s.pick([1, 2, 2, 3, 5])
    man = []
    for k in range(s.range(2, 4)):
        b = s.chance(.5)
        f, pred = levelset(s, p)
        o = [x for x, y in (("instantaneous", .6), ("time_averaged", .7),
                            ("space_averaged", .6)) if s.chance(y)] or ["instantaneous"]
        man.append((f"m{k}", b, f, pred, o))
    again = s.chance(.4)
    A = p.with_(A={"timer granularity": p.T * 1e-9}, K={
        "interior manifolds": "all : 0*x : instantaneous",
        "boundary manifolds": "bd : 0*x : instantaneous"})
    cfgK = {"clear statistics on writeout": clear}
    for b, n in ((False, "interior"), (True, "boundary")):
        cfgK[n + " manifolds"] = ", ".join(
            f"{m[0]} : {m[2]} : {' '.join(m[4])}" for m in man if m[1] == b)
    B = p.with_(A={"timer granularity": g,
                   "timer compute quantities multiplier": mult}, K=cfgK)
    s.note("manifolds", [(m[0], "boundary" if m[1] else "interior", m[2],
                          m[4]) for m in man])
    s.note("run", f"np {np} clear {clear} multiplier {mult} rerun {again}")
    with Dir() as d:
        run(A, d)
        base, times = {}, []
        for b, n in ((False, "all"), (True, "bd")):
            t = Table(f"{d}/r-{n}-R0000-points.dat", p.dim, b)
            fs = sorted(glob.glob(f"{d}/r-{n}-R*-instantaneous.dat"))
            v = []
            times = []
            for f in fs:
                rows, com = numbers(f)
                require(len(rows) == len(t.x), "points and values differ")
                v.append(rows)
                times.append(stamp(com))
            base[b] = (t, v)
    ncol = len(base[False][1][0][0])
    tol = p.tol
    with Dir() as d:
        if again:
            # left-overs of an earlier run must not be visible
            run(p.with_(A={"timer granularity": g}, K=cfgK), d)
        run(B, d, np)
        ticks = model(times, g, mult)
        last = max(ticks.values())
        for name, b, formula, pred, opts in man:
            t, v = base[b]
            pick = [i for i, x in enumerate(t.x) if pred(x)]
            x = [t.x[i] for i in pick]
            what = f"{name} ({formula})"
            if "instantaneous" in opts or "time_averaged" in opts:
                f = f"{d}/r-{name}-R0000-points.dat"
                require(os.path.exists(f), f"{what}: no points file")
                m = Table(f, p.dim, b)
                multiset(collect(x, [t.rest[i] + (t.mass[i],) for i in pick]),
                         collect(m.x, [r + (q,) for r, q in
                                       zip(m.rest, m.mass)]),
                         1e-10, f"{what} points")
            prev = -1
            for c, k in ticks.items():
                pre = f"{d}/r-{name}-R{c:04d}-"
                if "instantaneous" in opts:
                    f = pre + "instantaneous.dat"
                    require(os.path.exists(f), f"{what}: no output {c}")
                    rows, com = numbers(f)
                    require(abs(stamp(com) - times[k]) <= 1e-10 * p.T,
                            f"{what}: output {c} at {stamp(com)}, expected "
                            f"{times[k]}")
                    multiset(collect(x, [v[k][i] for i in pick]),
                             collect(m.x, rows), tol, f"{what} output {c}")
                    for r in rows:
                        h = len(r) // 2
                        require(all(abs(r[j] ** 2 - r[h + j]) <= 1e-12 *
                                    max(1., r[h + j]) for j in range(h)),
                                f"{what}: second moments {r}")
                start = 0 if not clear else prev + 1
                if "time_averaged" in opts:
                    f = pre + "time_averaged.dat"
                    if not again:
                        require(os.path.exists(f) == (k > start),
                                f"{what}: average over steps {start} to {k}: "
                                f"exists {os.path.exists(f)}")
                    if k > start:
                        require(os.path.exists(f), f"{what}: no average {c}")
                        rows, com = numbers(f)
                        w = com[0].split()
                        a, e = float(w[w.index("from") + 3]), float(w[-1])
                        require(abs(a - times[start]) <= 1e-10 * p.T and
                                abs(e - times[k]) <= 1e-10 * p.T,
                                f"{what}: averaged from {a} to {e}, expected "
                                f"{times[start]} to {times[k]}")
                        want = trapezoid(times[start:k + 1],
                                         [[v[q][i] for i in pick]
                                          for q in range(start, k + 1)]) \
                            if pick else []
                        multiset(collect(x, want), collect(m.x, rows),
                                 tol * 10, f"{what} time average {c}")
                    if b and k > start > 1 and pick and clear:
                        s.label("cleared average on the boundary")
                    if k > start > 1 and pick:
                        s.label("later average")
                prev = k
            if "space_averaged" in opts:
                f = f"{d}/r-{name}-R0000-space_averaged_time_series.dat"
                require(os.path.exists(f), f"{what}: no time series")
                text = open(f).read().splitlines()
                require(text and text[0].startswith("#"),
                        f"{what}: the time series does not start with a "
                        "header")
                rows, _ = numbers(f)
                require(len(rows) == last + 1, f"{what}: the time series has "
                        f"{len(rows)} entries for {last + 1} steps")
                mass = sum(t.mass[i] for i in pick)
                for k, r in enumerate(rows):
                    require(abs(r[0] - times[k]) <= 1e-10 * p.T,
                            f"{what}: time {r[0]}, expected {times[k]}")
                    if not pick:
                        continue
                    for j in range(ncol):
                        w = sum(t.mass[i] * v[k][i][j] for i in pick) / mass
                        require(abs(w - r[1 + j]) <= tol * 10 *
                                max(1., abs(w)), f"{what}: average {r[1 + j]} "
                                f"of column {j} at step {k}, expected {w}")
            s.count("manifolds")
            s.nontrivial(bool(pick) and len(times) > 2 and bool(opts))
    s.label("clear" if clear else "keep")


sys.exit(main())
