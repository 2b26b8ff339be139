"""P20: mesh adaptation transfers the solution."""
import glob
import math
import os
import re
import sys

from minipbt import Fail, Known, facet, main, require
from prog import Dir, Problem, field, merge, numbers, points_cycle, run

TINY = 1e-13


def read(d, p, c):
    return field(d, "r", "all", c, p.dim, points_cycle(d, "r", "all", c),
                 p.wrap)


def outputs(d):
    return sorted(int(re.search(r"-R(\d+)-inst", f).group(1))
                  for f in glob.glob(f"{d}/r-all-R*-instantaneous.dat"))


def mesh_cycles(d):
    return sorted(int(re.search(r"-R(\d+)-points", f).group(1))
                  for f in glob.glob(f"{d}/r-all-R*-points.dat"))


def adaptivity(s, p, times, coarsen=True):
    # hanging nodes are supported for continuous elements only
    random = p.ansatz[0] == "c" and s.chance(.85)
    r = round(s.uniform(.05, .6), 2)
    c = round(s.uniform(0., .9 - r), 2) if coarsen else 0.
    s.note("adaptation", f"random {random} refine {r} coarsen {c} at {times}")
    return {"adaptation strategy": "random adaptation" if random else
            "global refinement",
            "adaptation strategies": {
                "random adaptation: mersenne_twister_seed": s.range(1, 999)},
            "marking strategies": {
                "fixed number: refinement fraction": r,
                "fixed number: coarsening fraction": c},
            "time point selection strategies": {
                "adaptation timepoints": times}}


def conserved(eq, v):
    if eq == "scalar conservation":
        return list(v)
    if eq == "shallow water":
        return [v[0]] + [v[0] * x for x in v[1:]]
    e = v[-1] / .4 + .5 * v[0] * sum(x * x for x in v[1:-1])
    return [v[0]] + [v[0] * x for x in v[1:-1]] + [e]


def open_boundaries(p):
    """boundary states are never touched"""
    r = p.cfg["C - Discretization"]["rectangular domain"]
    return merge(p.cfg, {"C - Discretization": {"rectangular domain": {
        k: "do nothing" for k in r if k.startswith("boundary condition") and
        r[k] != "periodic"}}})


EQS = ("euler", "euler", "shallow water", "scalar conservation")
SECTION = {"euler": ("density", True), "shallow water": ("water depth", False)}


def frozen(cfg, amr):
    """adapt once and make one step that is too small to matter"""
    return merge(cfg, {
        "A - TimeLoop": {"final time": TINY, "timer granularity": TINY / 10,
                         "enforce final time": True,
                         "enable checkpointing": True,
                         "enable mesh adaptivity": True},
        "I - MeshAdaptor": amr})


def compare(p, f, want, what):
    worst = 0.
    scale = [max(1., max(abs(a) for a in col)) for col in zip(*f.v)]
    for x, v in zip(f.x, f.v):
        u, w = conserved(p.eq, v), want(x)
        for a, b in zip(u, w):
            e = abs(a - b) / max(1., abs(b))
            if not e <= 1e-9:
                raise Fail(f"{what}: the transferred state at {x} is {u}, the "
                           f"finite element function {w} (error {e:.3e})")
            worst = max(worst, e)
    return worst


@facet("P20.transfer", 90, 3000)
def _(s):
    """generic data on a uniform mesh, one adaptation"""
    p = Problem(s, EQS, dims=(2, 2, 3), cells=140, ansatz=["cG Q1", "cG Q1",
                                                          "cG Q2"])
    cfg = open_boundaries(p)
    amr = adaptivity(s, p, [0.])
    k, dim = p.degree, p.dim
    n = [p.sub[i] * 2 ** p.refine * k for i in range(dim)]
    h = [p.L[i] / n[i] for i in range(dim)]
    with Dir() as d:
        run(frozen(cfg, amr), d, p.ranks(s, [1, 1, 2, 3]))
        require(outputs(d) == [0, 1], f"outputs {outputs(d)}")
        a, b = read(d, p, 0), read(d, p, 1)
    U = {}
    for x, v in zip(a.x, a.v):
        U[tuple(round(x[i] / h[i]) for i in range(dim))] = conserved(p.eq, v)

    def node(j):
        for i in range(dim):
            if p.periodic[i] and j[i] == n[i]:
                j = j[:i] + (0,) + j[i + 1:]
        return U[j]

    def want(x):
        # tensor-product Lagrange interpolation in the cell of x
        w1, base = [], []
        for i in range(dim):
            c = min(max(int(x[i] / (k * h[i]) + 1e-9), 0), n[i] // k - 1)
            t = x[i] / h[i] - c * k
            base.append(c * k)
            w1.append([math.prod((t - m) / (l - m) for m in range(k + 1)
                                 if m != l) for l in range(k + 1)])
        r = None
        import itertools
        for o in itertools.product(range(k + 1), repeat=dim):
            w = math.prod(w1[i][o[i]] for i in range(dim))
            if abs(w) < 1e-14:
                continue
            v = node(tuple(base[i] + o[i] for i in range(dim)))
            r = [w * q for q in v] if r is None else \
                [y + w * q for y, q in zip(r, v)]
        return r

    compare(p, b, want, "after the adaptation")
    s.nontrivial(len(a.x) != len(b.x))
    s.count("nodes", len(b.x))


def term(s, dim, k, L):
    """a random polynomial of degree k in each variable with values in [-1, 1]
    (python and muparser syntax agree up to the powers used)"""
    t = []
    for i in range(dim):
        c = [round(s.uniform(-1, 1), 3) for _ in range(k + 1)]
        z = f"({'xyz'[i]}/{L[i]!r})"
        q = "+".join([f"({c[0]!r})"] + [f"({c[m]!r})*" + "*".join([z] * m)
                                        for m in range(1, k + 1)])
        t.append(f"({q})/{sum(abs(x) for x in c) + .1!r}")
    return "(" + ")*(".join(t) + ")"


@facet("P20.reproduce", 60, 2000)
def _(s):
    """polynomials survive a sequence of adaptations (by resuming)"""
    p = Problem(s, EQS, dims=(2, 2, 3), cells=60, periodic=False,
                ansatz=["cG Q1", "cG Q1", "cG Q1", "cG Q2", "dG Q1"])
    cfg = open_boundaries(p)
    k = p.degree
    a, b = term(s, p.dim, k, p.L), term(s, p.dim, k, p.L)
    vel = [round(s.uniform(-.5, .5), 2) for _ in range(p.dim)]
    sec = {}
    if p.eq == "scalar conservation":
        sec["expression"] = f"0.2+0.7*{a}"
    else:
        sec[SECTION[p.eq][0] + " expression"] = f"1.2+0.5*{a}"
        for i in range(p.dim):
            sec[f"velocity {'xyz'[i]} expression"] = repr(vel[i])
        if p.eq == "euler":
            sec["pressure expression"] = f"1.+0.5*{b}"
    cfg = merge(cfg, {"E - InitialValues": {
        "configuration": "function", "direction": [1.] + [0.] * (p.dim - 1),
        "position": [0.] * p.dim}})
    cfg["E - InitialValues"] = {
        "configuration": "function", "direction": [1.] + [0.] * (p.dim - 1),
        "position": [0.] * p.dim, "function": sec}
    ca, cb = compile(a, "a", "eval"), compile(b, "b", "eval")

    def want(x):
        e = dict(zip("xyz", x))
        if p.eq == "scalar conservation":
            return [.2 + .7 * eval(ca, {}, e)]
        h = 1.2 + .5 * eval(ca, {}, e)
        r = [h] + [h * v for v in vel]
        if p.eq == "euler":
            r.append((1. + .5 * eval(cb, {}, e)) / .4 +
                     .5 * h * sum(v * v for v in vel))
        return r

    legs = s.range(1, 3) if p.ansatz[0] == "c" else 1
    sizes = []
    with Dir() as d:
        for leg in range(legs):
            amr = adaptivity(s, p, [0.])
            c = merge(frozen(cfg, amr), {"A - TimeLoop": {
                "resume": leg > 0, "resume at time zero": leg > 0}})
            for f in glob.glob(f"{d}/r-all-R*"):
                os.remove(f)
            run(c, d, p.ranks(s, [1, 1, 2, 3]))
            require(outputs(d) == [0, 1], f"outputs {outputs(d)}")
            f = read(d, p, 0)
            compare(p, f, want, f"leg {leg} before the adaptation")
            sizes.append(len(f.x))
            f = read(d, p, 1)
            compare(p, f, want, f"leg {leg} after the adaptation")
            sizes.append(len(f.x))
            if len(f.x) > 1500:
                break
    s.note("nodes", sizes)
    s.count("adaptations", len(sizes) // 2)
    s.nontrivial(len(set(sizes)) > 1)


def schedule(d, p, times, what):
    """adaptations happen exactly once per time point, when it is reached"""
    out, mesh = outputs(d), mesh_cycles(d)
    t = [read(d, p, c).t for c in out]
    want, pending = [0], list(times)
    for k in range(len(out) - 1):
        if [x for x in pending if x <= t[k]]:
            want.append(out[k + 1])
            pending = [x for x in pending if x > t[k]]
    require(mesh == want, f"{what}: mesh changed before outputs {mesh}, "
            f"expected {want} for time points {times} and times {t}")
    return len(want) - 1


def kept(p, out, F, val, walls, vol):
    if val is not None:
        for c, f in zip(out, F):
            for x, u in zip(f.x, f.v):
                for a, b in zip(u, val):
                    require(abs(a - b) <= 1e-9, f"output {c}: state {u} at "
                            f"{x}, expected the constant {val}")
    # (a coarser mesh only sees an interpolation, but refinement keeps the
    # function and thus its integral)
    elif walls or all(p.periodic):
        m = [sum(q * conserved(p.eq, u)[0] for q, u in zip(f.mass, f.v))
             for f in F]
        for c, a in zip(out, m):
            require(abs(a - m[0]) <= 1e-9 * vol, f"output {c}: total mass "
                    f"{a!r} against {m[0]!r} initially")


@facet("P20.balance", 70, 2000)
def _(s):
    """a long run with several adaptations: constants stay, mass is kept"""
    p = Problem(s, EQS, dims=(2, 2, 3), cells=70,
                ansatz=["cG Q1", "cG Q1", "cG Q1", "cG Q2"], steps=(3, 8))
    constant = s.chance(.4)
    walls = not constant and p.eq != "scalar conservation"
    r = p.cfg["C - Discretization"]["rectangular domain"]
    kinds = ["slip"] if walls else ["dirichlet", "do nothing"]
    cfg = merge(p.cfg, {"C - Discretization": {"rectangular domain": {
        k: s.pick(kinds) for k in r if k.startswith("boundary condition") and
        r[k] != "periodic"}}})
    if p.eq == "scalar conservation" and not constant:
        constant = not all(p.periodic)
    v = "xyz"
    if constant:
        val = [round(s.uniform(.5, 1.5), 3) for _ in range(p.dim + 2)]
        sec = {"expression": repr(val[0])} if p.eq == "scalar conservation" \
            else {SECTION[p.eq][0] + " expression": repr(val[0])}
        if p.eq != "scalar conservation":
            for i in range(p.dim):
                sec[f"velocity {v[i]} expression"] = repr(val[1 + i] - 1.)
                val[1 + i] -= 1.
        if p.eq == "euler":
            sec["pressure expression"] = repr(val[-1])
        n = {"euler": p.dim + 2, "shallow water": p.dim + 1}.get(p.eq, 1)
        val = val[:n - 1] + val[-1:] if p.eq == "euler" else val[:n]
        cfg["E - InitialValues"] = {
            "configuration": "function", "function": sec,
            "direction": [1.] + [0.] * (p.dim - 1), "position": [0.] * p.dim}
    times = sorted(round(s.uniform(0., 1.) ** 2 * p.T, 9)
                   for _ in range(s.range(1, 2)))
    if s.chance(.4):
        times[0] = 0.
    amr = adaptivity(s, p, times, coarsen=constant)
    cfg = merge(cfg, {
        "A - TimeLoop": {"timer granularity": p.T * 1e-9,
                         "enable mesh adaptivity": True},
        "K - Quantities": {"interior manifolds":
                           "all : 0*x : instantaneous"},
        "I - MeshAdaptor": amr})
    s.note("kind", "constant" if constant else "conservation")
    with Dir() as d:
        run(cfg, d, p.ranks(s, [1, 1, 2]))
        n = schedule(d, p, times, "schedule")
        out = outputs(d)
        F = [read(d, p, c) for c in out]
    vol = math.prod(p.L)
    for c, f in zip(out, F):
        require(abs(sum(f.mass) - vol) <= 1e-9 * vol, f"output {c}: the "
                f"masses add up to {sum(f.mass)!r}, not {vol!r}")
    try:
        kept(p, out, F, val if constant else None, walls, vol)
    except Fail:
        # (recorded) nodes that were constrained before the adaptation, i. e.
        # periodic or hanging ones, get values of an earlier time
        if any(p.periodic) or (n > 1 and "random" in
                               amr["adaptation strategy"]):
            raise Known("P20-K1")
        raise
    s.nontrivial(n > 0 and len(out) > 2)
    s.count("adaptations", n)
    s.label("constant" if constant else "conservation")


sys.exit(main())
