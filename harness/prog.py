"""Drive the configured program: parameter files, runs, and its text output."""
import math
import os
import shutil
import subprocess
import sys
import tempfile

from minipbt import Discard, Fail, require

KEY = {"euler": "e", "euler aeos": "a", "navier stokes": "n",
       "scalar conservation": "c", "shallow water": "s"}


def binary(eq):
    k = "VERIF_BIN_ryujin_" + KEY[eq]
    if k in os.environ:
        return os.environ[k]
    return os.environ["VERIF_BIN_ryujin"]


def render(d, ind=0):
    out, p = [], "  " * ind
    for k, v in d.items():
        if isinstance(v, dict):
            out += [f"{p}subsection {k}", render(v, ind + 1).rstrip("\n"),
                    f"{p}end"]
        else:
            if isinstance(v, bool):
                v = "true" if v else "false"
            elif isinstance(v, float):
                v = repr(v)
            elif isinstance(v, (list, tuple)):
                v = ", ".join(repr(x) if isinstance(x, float) else str(x)
                              for x in v)
            out.append(f"{p}set {k} = {v}")
    return "\n".join(x for x in out if x) + "\n"


def merge(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = merge(r.get(k, {}), v) if isinstance(v, dict) else v
    return r


class Dir:
    """A scratch directory that disappears with the case."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="case-",
                                  dir=os.environ.get("VERIF_WORK"))
        return self.d

    def __exit__(self, *_):
        shutil.rmtree(self.d, ignore_errors=True)


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out

    def tail(self, n=700):
        t = [x for x in self.out.splitlines() if x.strip()]
        return "\n".join(t)[-n:]


def launch(argv, d, np=1, threads=1, env=None, limit=60):
    e = dict(os.environ, OMP_NUM_THREADS=str(threads),
             OMP_THREAD_LIMIT=str(threads), DEAL_II_NUM_THREADS=str(threads),
             TMPDIR=os.environ.get("VERIF_WORK", "/tmp"),
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_btl="self,vader",
             OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_plm_rsh_agent="sh", OPENBLAS_NUM_THREADS="1",
             OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_hwloc_base_binding_policy="none")
    e.update(env or {})
    cmd = (["mpirun", "-n", str(np)] if np > 1 else []) + argv
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        kill(p)
        # a deadlock: the same program ends in no time on a single rank
        if np > 1 and limit > 10:
            with Dir() as d2:
                import shutil
                shutil.copytree(d, d2, dirs_exist_ok=True)
                r = launch(argv, d2, 1, threads, env, 10)
            if r.rc == 0:
                raise Fail(f"the program hangs on {np} ranks")
        raise Discard()
    except BaseException:
        kill(p)
        raise
    return Result(p.returncode, out.decode(errors="replace"))


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGTERM)
        p.wait(timeout=5)
    except Exception:
        pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.wait(timeout=5)
    except Exception:
        pass


FIRST = []       # the first configuration that the current case runs
TOL = [None]     # replaces the tolerance of Problem


def robust(fn):
    """Before a difference counts, compare it with the one that a relative
    perturbation of 1e-13 of the initial state makes (three quotients of small
    differences enter the scheme: indicator, limiter, wave speed)."""
    def wrapped(s):
        del FIRST[:]
        TOL[0] = None
        try:
            return fn(s)
        except Fail:
            if not FIRST:
                raise
            try:
                e = noise(*FIRST)
            except (Fail, OSError, ValueError, IndexError):
                e = 0.
            if 10. * e <= 1e-8:
                raise
        if 10. * e > 1e-4:
            s.label("ill-conditioned")
            raise Discard()
        s.__init__(s.tape, s.state, s.replaying)
        s.label("tolerance raised")
        TOL[0] = 10. * e
        try:
            return fn(s)
        finally:
            TOL[0] = None
    return wrapped


def noise(cfg, name):
    import glob
    import re
    dim = cfg["B - Equation"]["dimension"]
    F = []
    for e in (0., 1e-13, 1e-13):
        c = merge(cfg, {"E - InitialValues": {"perturbation": e}}) if e else \
            cfg
        with Dir() as d:
            run(c, d, name=name)
            base = c["A - TimeLoop"]["basename"]
            out = sorted(int(re.search(r"-R(\d+)-inst", f).group(1))
                         for f in glob.glob(f"{d}/{base}-all-R*-inst*"))
            F.append([field(d, base, "all", k, dim,
                            points_cycle(d, base, "all", k)) for k in out])
    worst = 0.
    for G in F[1:]:
        for a, b in zip(F[0], G):
            worst = max(worst, same(a, b, math.inf, "noise"))
    return worst


def run(cfg, d, np=1, threads=1, name="in.prm", ok=True, env=None):
    if not FIRST:
        FIRST.extend([cfg, name])
    with open(os.path.join(d, name), "w") as f:
        f.write(render(cfg))
    r = launch([binary(cfg["B - Equation"]["equation"]), name], d, np, threads,
               env)
    if ok and r.rc != 0:
        raise Fail(f"the program failed with {r.rc} (np={np}, threads="
                   f"{threads}): {r.tail()}")
    return r


# ---------------------------------------------------------------- dumps

def numbers(path):
    """rows of numbers and comment lines of a quantities file"""
    rows, com = [], []
    with open(path) as f:
        for line in f:
            if line.startswith("#"):
                com.append(line.strip())
            elif line.strip():
                rows.append([float(x) for x in line.split()])
    return rows, com


class Field:
    """Nodal values keyed by position."""

    def __init__(self, points, values, dim, t, wrap=None):
        self.dim, self.t = dim, t
        self.x = [tuple(p[:dim]) for p in points]
        if wrap:
            # one node represents both sides of a periodic direction
            self.x = [tuple(0. if w and abs(a - w) < 1e-9 else a
                            for a, w in zip(p, wrap)) for p in self.x]
        self.mass = [p[dim] for p in points]
        self.aux = [p[dim:] for p in points]
        n = len(values[0]) // 2 if values else 0
        self.v = [v[:n] for v in values]
        self.v2 = [v[n:] for v in values]
        self.grid = {}
        for i, p in enumerate(self.x):
            self.grid.setdefault(self.cell(p), []).append(i)

    @staticmethod
    def cell(p):
        return tuple(math.floor(a * 1e6 + 0.5) for a in p)

    def at(self, p, tol=1e-8):
        """indices of the nodes at position p"""
        c = self.cell(p)
        r = [i for i in self.grid.get(c, [])
             if max(abs(a - b) for a, b in zip(p, self.x[i])) < tol]
        if r:
            return r
        import itertools
        for o in itertools.product((-1, 0, 1), repeat=self.dim):
            for i in self.grid.get(tuple(a + b for a, b in zip(c, o)), []):
                if max(abs(a - b) for a, b in zip(p, self.x[i])) < tol:
                    r.append(i)
        return r


def stamp(com):
    for c in com:
        if c.startswith("# at t ="):
            return float(c.split("=")[1])
    return None


def field(d, base, name, cycle, dim, points_cycle=None, wrap=None):
    """The instantaneous values of the manifold `name` at an output cycle."""
    pc = cycle if points_cycle is None else points_cycle
    f = f"{d}/{base}-{name}-R{pc:04d}-points.dat"
    g = f"{d}/{base}-{name}-R{cycle:04d}-instantaneous.dat"
    require(os.path.exists(f), "missing output file ", os.path.basename(f))
    require(os.path.exists(g), "missing output file ", os.path.basename(g))
    p, _ = numbers(f)
    v, com = numbers(g)
    require(len(p) == len(v), f"{len(p)} points but {len(v)} values in ",
            os.path.basename(g))
    return Field(p, v, dim, stamp(com), wrap)


def points_cycle(d, base, name, cycle):
    """the last mesh file at or before a cycle"""
    import glob
    import re
    c = [int(re.search(r"-R(\d+)-points", f).group(1))
         for f in glob.glob(f"{d}/{base}-{name}-R*-points.dat")]
    c = [x for x in c if x <= cycle]
    require(c, f"no mesh file for output cycle {cycle}")
    return max(c)


def same(a, b, tol, what, scale=None, xtol=1e-8):
    """two fields agree as multisets of values at every position"""
    require(len(a.x) == len(b.x), f"{what}: {len(a.x)} nodes against "
            f"{len(b.x)}")
    n = len(a.v[0]) if a.v else 0
    if scale is None:
        scale = [0.] * n
        for f in (a, b):
            for v in f.v:
                for c in range(n):
                    scale[c] = max(scale[c], abs(v[c]))
        m = max(scale, default=0.)
        # momenta and velocities cancel: compare with the other components
        scale = [max(s, 0.1 * m) for s in scale]
    worst, arg = 0., None
    done = set()
    for i, p in enumerate(a.x):
        if i in done:
            continue
        mine = a.at(p, xtol)
        done.update(mine)
        other = list(b.at(p, xtol))
        require(len(mine) == len(other), f"{what}: {len(mine)} against "
                f"{len(other)} nodes at {p}")
        for k in mine:
            best = None
            for o in other:
                e = max((abs(x - y) / s if s else abs(x - y)
                         for x, y, s in zip(a.v[k], b.v[o], scale)),
                        default=0.)
                if not e <= 1e300:
                    e = math.inf
                if best is None or e < best[0]:
                    best = (e, o)
            other.remove(best[1])
            if best[0] > worst:
                worst, arg = best[0], (p, a.v[k], b.v[best[1]])
    require(worst <= tol, f"{what}: relative difference {worst:.3e} > "
            f"{tol:.1e} at {arg}")
    return worst


def errors(out):
    """the error norms printed at the end"""
    r = {}
    for line in out.splitlines():
        w = line.split("=")
        if len(w) == 2 and w[0].strip() in ("#dofs", "t", "Linf", "L1", "L2"):
            try:
                r[w[0].strip()] = float(w[1])
            except ValueError:
                pass
    return r


# ---------------------------------------------------------------- generators

SCHEMES = ["ssprk 22", "ssprk 33", "erk 11", "erk 22", "erk 33", "erk 43",
           "erk 54"]


def trig(s, dim, mean, amp, L, per, lo=0., speed=0.):
    """a smooth periodic expression with values in mean +- amp; no two nodes
    of a mesh have the same value, except by accident"""
    v = "xyz"
    terms = []
    for i in range(dim):
        k = (1 if per[i] else s.pick([.731, 1.193])) * 2 * math.pi / L[i]
        terms.append(f"{round(amp / dim * s.uniform(.6, 1.), 4)!r}*sin({k!r}*"
                     f"({v[i]}-{lo!r})+{round(s.uniform(0, 6), 3) + .00013!r}" +
                     (f"+{speed!r}*t" if speed else "") + ")")
    return f"{mean!r}+" + "+".join(terms)


def bcs(s, eq, dim, periodic=True):
    names = [("left", "right"), ("bottom", "top"), ("back", "front")][:dim]
    if eq == "scalar conservation":
        kinds = ["dirichlet", "do nothing"]
    elif eq == "navier stokes":
        kinds = ["slip", "no slip", "dirichlet"]
    else:
        kinds = ["slip", "slip", "no slip", "dirichlet", "do nothing"]
        if eq == "shallow water":
            kinds += ["dirichlet momentum"]
    out, per = {}, []
    for a, b in names:
        if periodic and s.chance(0.3):
            out[f"boundary condition {a}"] = "periodic"
            out[f"boundary condition {b}"] = "periodic"
            per.append(True)
        else:
            for x in (a, b):
                out[f"boundary condition {x}"] = s.pick(kinds)
            per.append(False)
    return out, per


def primitive(s, eq, dim):
    """a 1D primitive state as the initial states take it"""
    if eq == "shallow water":
        return [round(s.uniform(0.5, 2.), 3), round(s.uniform(-.8, .8), 3)]
    if eq == "scalar conservation":
        return [round(s.uniform(-1., 1.), 3)]
    return [round(s.uniform(0.5, 2.), 3), round(s.uniform(-1., 1.), 3),
            round(s.uniform(0.4, 2.), 3)]


def initial(s, eq, dim, L, per, speed=0.):
    """(configuration name, sections) with states of size one"""
    v = "xyz"
    if eq == "scalar conservation":
        return "function", {"function": {
            "expression": trig(s, dim, round(s.uniform(-.5, .5), 2), .5, L,
                               per, speed=speed)}}
    kind = s.pick(["function", "contrast", "function"] +
                  (["radial contrast"] if eq != "shallow water" else []))
    if any(per):
        kind = "function"
    if kind == "function":
        h = "water depth" if eq == "shallow water" else "density"
        sec = {f"{h} expression": trig(s, dim, 1.2, .3, L, per,
                                              speed=speed)}
        for d in range(dim):
            sec[f"velocity {v[d]} expression"] = trig(
                s, dim, round(s.uniform(-.5, .5), 2), .3, L, per,
                speed=speed)
        if eq != "shallow water":
            sec["pressure expression"] = trig(s, dim, 1., .3, L, per,
                                              speed=speed)
        return kind, {kind: sec}
    a, b = primitive(s, eq, dim), primitive(s, eq, dim)
    if kind == "contrast":
        return kind, {kind: {"primitive state left": a,
                             "primitive state right": b}}
    a[1] = b[1] = 0.
    return kind, {kind: {"primitive state inner": a,
                         "primitive state outer": b,
                         "radius": round(s.uniform(.15, .6), 3)}}


FLUX = {d: {"flux": "function", "function": {
    "expression": "; ".join(["0.5*u*u + 0.3*u", "0.4*u*u - 0.37*u",
                             "sin(u) + 0.11*u*u"][:d]),
    "derivative approximation delta": 1e-4}} for d in (1, 2, 3)}


class Problem:
    """A small, moderately sized, well-posed run."""

    def __init__(self, s, eqs=("euler", "euler", "shallow water",
                               "scalar conservation"),
                 dims=(1, 2, 2, 2, 3), steps=(1, 6), cells=260,
                 ansatz=None, schemes=SCHEMES, periodic=True, speed=0.):
        self.eq = eq = s.pick(eqs)
        dims = [d for d in dims if not (eq == "shallow water" and d == 3)]
        self.dim = dim = s.pick(dims)
        self.ansatz = s.pick(ansatz or ["cG Q1", "cG Q1", "cG Q1", "cG Q2",
                                        "cG Q3", "dG Q0", "dG Q1", "dG Q2"])
        if eq == "scalar conservation" and self.ansatz != "dG Q0":
            # its indicator is discontinuous where neighbouring values agree
            self.ansatz = "cG Q1"
        k = int(self.ansatz[-1])
        self.degree = k
        self.L = [s.pick([1., 1., 0.6, 1.7]) for _ in range(dim)]
        # dofs: keep runs below a second or two
        per_cell = max(1, k + (self.ansatz[0] == "d")) ** dim
        budget = max(2, cells // per_cell)
        sub = [s.range(1, 3) for _ in range(dim)]
        n, r = math.prod(sub), 0
        rmax = s.range(0, 6)
        while r < rmax and n * 2 ** dim <= budget:
            r, n = r + 1, n * 2 ** dim
        b, per = bcs(s, eq, dim, periodic)
        # a periodic direction needs cells that are no neighbours of themselves
        for i in range(dim):
            if per[i]:
                while sub[i] * 2 ** r < 3:
                    sub[i] += 1
        while math.prod(sub) * 2 ** (dim * r) < 2:
            sub[0] += 1
        self.sub, self.refine, self.periodic = sub, r, per
        self.cells = math.prod(sub) * 2 ** (dim * r)
        self.h = min(self.L[i] / (sub[i] * 2 ** r) for i in range(dim))
        conf, secs = initial(s, eq, dim, self.L, per, speed)
        self.scheme = s.pick(schemes)
        # wave speeds of the generated states are below about 4 (SW: 6)
        lam = {"scalar conservation": 1.5, "shallow water": 6.}.get(eq, 3.5)
        self.steps = s.range(*steps)
        if k != 1 or eq == "scalar conservation":
            # roundoff grows fast there
            self.steps = min(self.steps, 3)
        tau = 0.4 * self.h / max(1, k) / lam / dim
        self.T = float(f"{self.steps * tau:.4g}")
        rect_sec = {"position bottom left": [0.] * dim,
                    "position top right": self.L}
        for i in range(dim):
            rect_sec["subdivisions " + "xyz"[i]] = sub[i]
        rect_sec.update(b)
        direction = [1.] + [0.] * (dim - 1)
        pos = [0.] * dim
        if conf != "function":
            pos = [round(s.uniform(.2, .8), 4) * self.L[i] + 1e-5
                   for i in range(dim)]
            if dim == 2 and conf == "contrast":
                direction = [round(s.uniform(-1, 1), 3) + .0007, 1.]
        self.cfg = {
            "A - TimeLoop": {
                "basename": "r", "final time": self.T,
                "timer granularity": self.T, "terminal update interval": 0,
                "enable compute quantities": True},
            "B - Equation": {"dimension": dim, "equation": eq},
            "C - Discretization": {
                "finite element ansatz": self.ansatz,
                "geometry": "rectangular domain", "mesh refinement": r,
                "mesh writeout": False, "rectangular domain": rect_sec},
            "E - InitialValues": dict({
                "configuration": conf, "direction": direction,
                "position": pos}, **secs),
            "F - HyperbolicModule": {"limiter": {
                "iterations": s.pick([0, 1, 2, 2]),
                "relaxation factor": s.pick([0., 1., 1.])}},
            "H - TimeIntegrator": {
                "time stepping scheme": self.scheme,
                "cfl recovery strategy": s.pick(["none",
                                                 "bang bang control"])},
            "K - Quantities": {
                "interior manifolds": "all : 0*x : instantaneous"}}
        if eq == "scalar conservation":
            # no edge may be orthogonal to the flux: there, the bar state is
            # not determined (a quotient of two roundoff errors)
            self.cfg["B - Equation"].update(s.pick([
                {"flux": "kpp"} if dim == 2 else {"flux": "burgers"}
                if dim == 1 else FLUX[dim], FLUX[dim]]))
        # one node stands for both sides of a periodic direction (cG)
        self.wrap = ([self.L[i] if per[i] else None for i in range(dim)]
                     if self.ansatz[0] == "c" and any(per) else None)
        # roundoff is amplified where states coincide
        self.tol = TOL[0] or (1e-8 if conf == "function" and k == 1
                              else 1e-6)
        s.label(eq)
        s.label(f"dim {dim}")
        s.label(self.ansatz)
        s.note("equation", f"{eq} {dim}D {self.ansatz} {self.scheme} {conf} "
               f"{self.cells} cells, bc {sorted(set(b.values()))}")

    def ranks(self, s, choices):
        # (deal.II cannot transfer solutions if a rank has no cells, and keeps
        # siblings on the same rank)
        return min(s.pick(choices), max(1, self.cells // 2 ** self.dim))

    def with_(self, **sections):
        names = {"A": "A - TimeLoop", "B": "B - Equation",
                 "C": "C - Discretization", "E": "E - InitialValues",
                 "F": "F - HyperbolicModule", "H": "H - TimeIntegrator",
                 "G": "G - ParabolicModule",
                 "I": "I - MeshAdaptor", "J": "J - VTUOutput",
                 "K": "K - Quantities"}
        cfg = self.cfg
        for k, v in sections.items():
            cfg = merge(cfg, {names[k]: v})
        return cfg
