"""P29/P30: what the program writes to its output files, and when."""
import ast
import base64
import glob
import itertools
import math
import os
import re
import struct
import sys
import xml.etree.ElementTree as ET
import zlib

from minipbt import Discard, Fail, facet, main, require
from prog import Dir, Problem, errors, field, launch, binary, numbers, \
    render, robust, run, stamp, Field
from prog_model import model


# ------------------------------------------------------------------ reading

def array(e):
    """the numbers of a DataArray"""
    t = e.text.strip()
    kind = {"Float32": "f", "Float64": "d", "Int32": "i", "UInt8": "B",
            "UInt32": "I", "Int64": "q", "UInt64": "Q"}[e.get("type")]
    if e.get("format") == "ascii":
        return [(float if kind in "fd" else int)(x) for x in t.split()]
    nb = struct.unpack("<I", base64.b64decode(t[:8])[:4])[0]
    n = 4 * (3 + nb)
    hl = (n + 2) // 3 * 4
    head = struct.unpack(f"<{3 + nb}I", base64.b64decode(t[:hl])[:n])
    raw = base64.b64decode(t[hl:])
    out, pos = b"", 0
    for c in head[3:]:
        out += zlib.decompress(raw[pos:pos + c])
        pos += c
    return [x[0] for x in struct.iter_unpack("<" + kind, out)]


class Vtu:
    def __init__(self, files):
        self.x, self.cells, self.data = [], [], {}
        self.time = self.cycle = None
        for f in files:
            try:
                root = ET.parse(f).getroot()
            except ET.ParseError as e:
                raise Fail(f"{os.path.basename(f)} is no XML file: {e}")
            for e in root.iter("FieldData"):
                for a in e.iter("DataArray"):
                    if a.get("Name") == "TIME":
                        self.time = array(a)[0]
                    if a.get("Name") == "CYCLE":
                        self.cycle = array(a)[0]
            for p in root.iter("Piece"):
                if p.get("NumberOfCells") == "0":
                    continue
                off = len(self.x)
                x = array(p.find("Points").find("DataArray"))
                self.x += [tuple(x[i:i + 3]) for i in range(0, len(x), 3)]
                c = {a.get("Name"): array(a) for a in p.find("Cells")}
                pos = 0
                for o in c["offsets"]:
                    self.cells.append([off + k for k in
                                       c["connectivity"][pos:o]])
                    pos = o
                for a in p.find("PointData").iter("DataArray"):
                    self.data.setdefault(a.get("Name"), []).extend(array(a))
        for k, v in self.data.items():
            require(len(v) == len(self.x), f"{len(v)} values of {k} for "
                    f"{len(self.x)} points")


def load(d, name, cycle, mpi_io):
    f = f"{d}/{name}_{cycle:06d}"
    if mpi_io:
        return Vtu([f + ".vtu"])
    src = [p.get("Source") for p in ET.parse(f + ".pvtu").getroot().iter(
        "Piece")]
    require(src, f"no pieces in {name}_{cycle:06d}.pvtu")
    return Vtu([os.path.join(d, x) for x in src])


# ------------------------------------------------------------------ the model

# Gauss-Lobatto support points
NODES = {1: [0., 1.], 2: [0., .5, 1.],
         3: [0., .5 - .5 / math.sqrt(5.), .5 + .5 / math.sqrt(5.), 1.]}


def lagrange(k, x):
    n = NODES[k]
    return [math.prod((x - n[j]) / (n[i] - n[j]) for j in range(k + 1)
                      if j != i) for i in range(k + 1)]


class Mesh:
    """the uniform Cartesian mesh of a Problem"""

    def __init__(self, p):
        self.p, self.dim, self.k = p, p.dim, p.degree
        self.n = [a * 2 ** p.refine for a in p.sub]
        self.h = [a / b for a, b in zip(p.L, self.n)]

    def cells(self):
        return itertools.product(*[range(n) for n in self.n])

    def find(self, x):
        """the cell around a point in its inside"""
        return tuple(min(n - 1, max(0, math.floor(a / h)))
                     for a, h, n in zip(x, self.h, self.n))

    def vertices(self, c):
        for o in itertools.product((0, 1), repeat=self.dim):
            yield tuple((a + b) * h for a, b, h in zip(c, o, self.h))

    def nodes(self, c):
        for o in itertools.product(NODES[self.k], repeat=self.dim):
            yield tuple((a + b) * h for a, b, h in zip(c, o, self.h))

    def wrapped(self, x):
        """periodic images of a position"""
        if not self.p.wrap:
            return tuple(x)
        return tuple(0. if w and abs(a - w) < 1e-9 else a
                     for a, w in zip(x, self.p.wrap))


class Nodal:
    """a field of a continuous element"""

    def __init__(self, mesh, f, values):
        self.m, self.f, self.v = mesh, f, values
        self.cache = {}

    def local(self, c):
        if c not in self.cache:
            r = []
            for x in self.m.nodes(c):
                i = self.f.at(self.m.wrapped(x))
                require(len(i) == 1, f"{len(i)} nodes at {x}")
                r.append(self.v[i[0]])
            self.cache[c] = r
        return self.cache[c]

    def __call__(self, c, x):
        w = [lagrange(self.m.k, a / h - b)
             for a, b, h in zip(x, c, self.m.h)]
        return sum(math.prod(q) * v for q, v in zip(
            itertools.product(*w), self.local(c)))


GAMMA = 1.4


def conserved(eq, dim, q):
    if eq == "scalar conservation":
        return list(q)
    m = [q[0] * a for a in q[1:1 + dim]]
    r = [q[0]] + m
    if eq != "shallow water":
        r.append(q[dim + 1] / (GAMMA - 1.) + .5 * q[0] * sum(
            a * a for a in q[1:1 + dim]))
    return r


def names(eq, dim):
    """name -> function of the primitive state"""
    s = [""] if dim == 1 else [f"_{i + 1}" for i in range(dim)]
    if eq == "scalar conservation":
        return {"u": lambda q: q[0]}, {}
    h = "h" if eq == "shallow water" else "rho"
    cons = [h] + ["m" + a for a in s]
    prim = [h] + ["v" + a for a in s]
    if eq != "shallow water":
        cons.append("E")
        prim.append("p")
    C = {n: (lambda q, i=i: conserved(eq, dim, q)[i])
         for i, n in enumerate(cons)}
    P = {n: (lambda q, i=i: q[i]) for i, n in enumerate(prim)}
    return C, P


def precomputed(eq, dim):
    if eq in ("euler", "navier stokes"):
        return {"s": lambda q: q[dim + 1] / (GAMMA - 1.) / q[0] ** GAMMA,
                "eta_h": lambda q: (q[0] * q[dim + 1] / (GAMMA - 1.)) ** (
                    1. / (GAMMA + 1.))}
    if eq == "shallow water":
        return {"eta_m": lambda q: .5 * 9.81 * q[0] ** 2 + .5 * q[0] * sum(
            a * a for a in q[1:1 + dim])}
    return {}


def gradient_sums(mesh, nodes, f, fields):
    """sum_j c_ij q_j / m_i for the fields at all nodes (Q1 on a uniform
    Cartesian mesh): tensor products of 1D matrices"""
    dim, h = mesh.dim, mesh.h
    n = len(f.x)
    m = [0.] * n
    g = [[[0.] * dim for _ in fields] for _ in range(n)]
    corner = list(itertools.product((0, 1), repeat=dim))
    M = lambda a, b, h: h / 3. if a == b else h / 6.
    D = lambda a, b: .5 if b else -.5
    W = [[[math.prod(D(a[e], b[e]) if e == d else M(a[e], b[e], h[e])
                     for e in range(dim)) for d in range(dim)]
          for b in corner] for a in corner]
    vol = math.prod(h) / 2 ** dim
    for c in mesh.cells():
        idx = []
        for x in mesh.nodes(c):
            i = f.at(mesh.wrapped(x))
            require(len(i) == 1, f"{len(i)} nodes at {x}")
            idx.append(i[0])
        for a, i in enumerate(idx):
            m[i] += vol
            for b, j in enumerate(idx):
                for q, v in enumerate(fields):
                    for d in range(dim):
                        g[i][q][d] += W[a][b][d] * v[j]
    return [[[a / m[i] for a in q] for q in g[i]] for i in range(n)]


def scaled(v, bounds, beta):
    hi, lo = bounds
    eps = 2. ** -52
    out = []
    for q in v:
        r = max(0., abs(q) - lo - 1e-10) / max(hi - lo, eps)
        out.append(math.copysign(1. - math.exp(-beta * r), q))
    return out


def function_value(expr, x, t):
    env = {k: v for k, v in zip("xyz", list(x) + [0., 0.])}
    env.update(t=t, sin=math.sin, abs=abs, __builtins__={})
    return eval(expr.replace("^", "**"), env)


def analytic(p, x, t):
    """the primitive state of the function initial state"""
    conf, sec = p.conf, p.cfg["E - InitialValues"]["function"]
    if p.eq == "scalar conservation":
        return [function_value(sec["expression"], x, t)]
    h = "water depth" if p.eq == "shallow water" else "density"
    r = [function_value(sec[h + " expression"], x, t)]
    r += [function_value(sec[f"velocity {'xyz'[d]} expression"], x, t)
          for d in range(p.dim)]
    if p.eq != "shallow water":
        r.append(function_value(sec["pressure expression"], x, t))
    return r


def plane(s, p):
    """a level set: (formula, python function)"""
    i = s.range(0, p.dim - 1)
    x = "xyz"[i]
    n = p.sub[i] * 2 ** p.refine
    kind = s.range(0, 2)
    if kind == 0:       # through vertices
        c = p.L[i] * s.range(0, n) / n
        return f"{x}-{c!r}", lambda q: q[i] - c
    if kind == 1:       # between them
        c = p.L[i] * (s.range(0, n - 1) + .37) / n
        return f"{x}-{c!r}", lambda q: q[i] - c
    if p.dim == 1:
        return f"{x}-5", lambda q: q[0] - 5.
    a = [round(s.uniform(-1., 1.), 3) + .00037 for _ in range(p.dim)]
    b = round(s.uniform(-.3, 1.), 3)
    f = "+".join(f"({c!r})*{v}" for c, v in zip(a, "xyz")) + f"-({b!r})"
    return f, lambda q: sum(c * v for c, v in zip(a, q)) - b


def close(a, b, scale, tol):
    return abs(a - b) <= tol * scale


def cells_of(v, mesh):
    """mesh cells of the patches of a file, with multiplicity"""
    out = {}
    for c in v.cells:
        x = [sum(v.x[k][d] for k in c) / len(c) for d in range(mesh.dim)]
        out.setdefault(mesh.find(x), []).append(c)
    return out


@facet("P29.vtu", 110, 4000)
@robust
def _(s):
    p = Problem(s, dims=(1, 2, 2, 2, 3), cells=90, steps=(1, 6), speed=s.pick(
        [0., 1.]))
    p.conf = p.cfg["E - InitialValues"]["configuration"]
    np = 1 if p.dim == 1 else p.ranks(s, [1, 1, 2, 3])
    C, P = names(p.eq, p.dim)
    pre = precomputed(p.eq, p.dim)
    allq = list(C) + [x for x in P if x not in C]
    want = [x for x in allq if s.chance(.6)]
    extra = [x for x in pre if s.chance(.5)]
    if s.chance(.4):
        extra.append("alpha")
    sel = want + extra
    sel = [sel[i] for i in sorted(range(len(sel)), key=lambda _: s.bits())] \
        or allq[:1]
    sch = [x for x in allq if s.chance(.4)] or allq[:1]
    vor = []
    if p.dim > 1 and p.eq != "scalar conservation":
        vor = [x for x in ("m_1", "v_1") if s.chance(.6)]
    beta = s.pick([10., 10., 1., 3.5])
    recompute = s.chance(.6)
    man = [plane(s, p) for _ in range(s.range(0, 2))]
    mpi_io = s.chance(.7)
    full, lev, err = s.chance(.8), s.chance(.6), s.chance(.5)
    mf, ml = s.pick([1, 1, 2, 3]), s.pick([1, 1, 2])
    mq = s.pick([1, 1, 1, 2])
    ck = s.chance(.3) and p.dim > 1
    mc = s.pick([1, 2, 3])
    enforce = s.chance(.5)
    # (slightly less than a fraction of T: the sum of three thirds of a step
    # that ends at T may be rounded to a time before T)
    g = p.T / s.pick([1, 2, 2, 3, 5]) * (1. - 1e-6)
    J = {"use mpi io": mpi_io, "vtu output quantities": ", ".join(sel),
         "schlieren quantities": ", ".join(sch),
         "schlieren beta": beta, "schlieren recompute bounds": recompute}
    if vor:
        J["vorticity quantities"] = ", ".join(vor)
    if man:
        J["manifolds"] = ", ".join(m[0] for m in man)
    equant = [x for x in C if s.chance(.6)] or list(C)[:1]
    normalize = s.chance(.5)
    B = p.with_(A={"timer granularity": g, "enforce final time": enforce,
                   "timer output full multiplier": mf,
                   "timer output levelsets multiplier": ml,
                   "timer checkpoint multiplier": mc,
                   "timer compute quantities multiplier": mq,
                   "enable output full": full, "enable output levelsets": lev,
                   "enable checkpointing": ck,
                   "error quantities": ", ".join(equant),
                   "error normalize": normalize,
                   "enable compute error": err}, J=J)
    A = p.with_(A={"timer granularity": p.T * 1e-9,
                   "enforce final time": enforce})
    s.note("output", f"np {np} full {full}/{mf} levelsets {lev}/{ml} "
           f"quantities {mq} checkpoint {ck}/{mc} analytic {err} mpi io "
           f"{mpi_io} recompute {recompute} beta {beta} {sel} {sch} {vor}")
    mesh = Mesh(p)
    cg = p.ansatz[0] == "c"
    with Dir() as d:
        run(A, d)
        times = []
        for f in sorted(glob.glob(f"{d}/r-all-R*-instantaneous.dat")):
            times.append(stamp(numbers(f)[1]))
    with Dir() as d:
        r = run(B, d, np)
        ticks = model(times, g, 1)
        # which files
        expected = set()
        ext = "vtu" if mpi_io else "pvtu"
        for c in ticks:
            for on, m, kind in ((full, mf, ""), (lev and man, ml,
                                                 "-levelsets")):
                if on and c % m == 0:
                    expected.add(f"r-solution{kind}_{c:06d}.{ext}")
                    if err:
                        expected.add(f"r-analytic_solution{kind}_{c:06d}."
                                     f"{ext}")
        found = {os.path.basename(f) for f in glob.glob(f"{d}/*.{ext}")}
        if not mpi_io:
            require(all(re.search(r"_\d{6}\.\d+\.vtu$", f) for f in
                        glob.glob(f"{d}/*.vtu")), "unexpected vtu files")
        require(found == expected, f"output files {sorted(found)}, expected "
                f"{sorted(expected)} (steps at {times}, granularity {g!r})")
        qfound = {int(re.search(r"-R(\d+)-", f).group(1))
                  for f in glob.glob(f"{d}/r-all-R*-instantaneous.dat")}
        require(qfound == {c for c in ticks if c % mq == 0},
                f"quantities at cycles {sorted(qfound)}, expected multiples "
                f"of {mq} in {sorted(ticks)}")
        cks = [c for c in ticks if ck and c % mc == 0]
        have = os.path.exists(f"{d}/r-checkpoint.metadata")
        require(have == bool(cks), f"checkpoint written: {have}")
        require(os.path.exists(f"{d}/r-checkpoint.metadata~") ==
                (len(cks) > 1), f"{len(cks)} checkpoints, but the backup "
                "does not show it")
        # what is in them
        frozen = None
        for c, k in ticks.items():
            what = f"cycle {c}"
            F = None
            if c % mq == 0:
                F = field(d, "r", "all", c, p.dim, 0, p.wrap)
                require(abs(F.t - times[k]) <= 1e-10 * p.T, f"{what}: "
                        f"quantities at {F.t}, expected {times[k]}")
            do = (full and c % mf == 0) or (lev and c % ml == 0)
            raws = None
            if F and cg and p.degree == 1:
                fl = []
                for x in sch:
                    fn = C.get(x) or P[x]
                    fl.append([fn(q) for q in F.v])
                for x in vor:
                    for i in range(p.dim):
                        fn = (C if x[0] == "m" else P)[f"{x[0]}_{i + 1}"]
                        fl.append([fn(q) for q in F.v])
                G = gradient_sums(mesh, None, F, fl)
                raws = {}
                for i, x in enumerate(sch):
                    raws["schlieren_" + x] = [
                        math.sqrt(sum(a * a for a in q[i])) for q in G]
                for i, x in enumerate(vor):
                    o = len(sch) + i * p.dim
                    if p.dim == 2:
                        raws["vorticity_" + x] = [
                            q[o + 1][0] - q[o][1] for q in G]
                    else:
                        raws["vorticity_" + x] = [math.sqrt(
                            (q[o + 2][1] - q[o + 1][2]) ** 2 +
                            (q[o][2] - q[o + 2][0]) ** 2 +
                            (q[o + 1][0] - q[o][1]) ** 2) for q in G]
                bnd = {n: (max(map(abs, v)), min(map(abs, v)))
                       for n, v in raws.items()}
            if do and not recompute and c > 0:
                # (bounds stay what they were at the first output)
                if frozen is None:
                    frozen = bnd if raws else "unknown"
            for kind in ("", "-levelsets"):
                if f"r-solution{kind}_{c:06d}.{ext}" not in expected:
                    continue
                v = load(d, "r-solution" + kind, c, mpi_io)
                got = cells_of(v, mesh)
                if kind:
                    exp = set()
                    for cell in mesh.cells():
                        for _, fn in man:
                            w = [fn(x) for x in mesh.vertices(cell)]
                            if max(w) >= -1e-13 and min(w) <= 1e-13:
                                exp.add(cell)
                else:
                    exp = set(mesh.cells())
                if not exp:
                    require(not v.cells, f"{what}{kind}: cells "
                            f"{sorted(got)[:4]} touch no level set")
                    continue
                require(v.cycle is None or v.cycle == c,
                        f"{what}: cycle {v.cycle} in the file")
                require(v.time is not None and abs(v.time - times[k]) <=
                        1e-5 * max(p.T, times[k]), f"{what}: time {v.time} "
                        f"in the file, expected {times[k]}")
                have = {("schlieren_" + x) for x in sch} | \
                    {("vorticity_" + x) for x in vor} | set(sel)
                require(set(v.data) == have, f"{what}: fields "
                        f"{sorted(v.data)}, expected {sorted(have)}")
                nsub = max(1, p.degree - 1) ** p.dim
                require(set(got) == exp, f"{what}{kind}: cells "
                        f"{sorted(set(got) ^ exp)[:4]} are missing or too "
                        f"many ({len(got)} of {len(exp)})")
                for cell, pc in got.items():
                    require(len(pc) == nsub, f"{what}{kind}: cell {cell} "
                            f"appears {len(pc)} times")
                # (cubic polynomials are evaluated between the nodes)
                if "alpha" in sel and p.degree <= 2:
                    require(all(-1e-6 <= a <= 1 + 1e-6 for a in
                                v.data["alpha"]), f"{what}: alpha outside "
                            "of [0,1]")
                if not F:
                    continue
                fields = {}
                for x in sel:
                    fn = C.get(x) or P.get(x) or pre.get(x)
                    if fn:
                        fields[x] = [fn(q) for q in F.v]
                near = {}
                if raws and (recompute or c == 0 or
                             isinstance(frozen, dict)):
                    b = bnd if recompute or c == 0 else frozen
                    for n, q in raws.items():
                        fields[n] = scaled(q, b[n], beta)
                        # (a sign that roundoff decides)
                        near[n] = 1e-7 * max(map(abs, q))
                        if b[n][0] - b[n][1] < 1e-6 * max(
                                1e-6, b[n][0]):
                            del fields[n]
                            s.label("no contrast")
                for n, q in fields.items():
                    m = max(map(abs, q))
                    if n[0] == "m" or n[0] == "v" and n[:2] != "vo":
                        m = max(m, .1)
                    tol = 3e-6 if not n.startswith(("schl", "vort")) else \
                        max(1e-5, 100. * p.tol)
                    compare(s, v, got, mesh, F, n, q, max(m, 1e-300), tol,
                            f"{what}{kind}", cg, bool(kind))
                    s.count("fields")
                s.nontrivial(True)
                s.label("levelsets" if kind else "full")
            if err and p.conf == "function" and full and c % mf == 0 and cg:
                v = load(d, "r-analytic_solution", c, mpi_io)
                got = cells_of(v, mesh)
                t = times[k]
                cache = {}
                for cell, pcs in got.items():
                    for i in {i for q in pcs for i in q}:
                        x = node_at(mesh, cell, v.x[i])
                        if x is None or any(
                                (a < 1e-9 or a > L - 1e-9) and not per
                                for a, L, per in zip(x, p.L, p.periodic)):
                            continue
                        if x not in cache:
                            cache[x] = analytic(p, mesh.wrapped(x), t)
                        for n in sel:
                            fn = C.get(n) or P.get(n)
                            if fn:
                                w = fn(cache[x])
                                require(abs(v.data[n][i] - w) <= 5e-6 *
                                        max(1., abs(w)), f"{what}: analytic "
                                        f"{n} is {v.data[n][i]} at {x}, t = "
                                        f"{t}, expected {w}")
                s.label("analytic")
        # error norms
        last = max(ticks)
        e = errors(r.out)
        require(bool(e) == err, "error norms are printed: " + str(bool(e)))
        # (boundary conditions are applied to the state before output, but
        # not before quantities of interest are computed)
        prepared = (full and last % mf == 0) or (lev and last % ml == 0) or \
            (ck and last % mc == 0)
        if err and p.conf == "function" and ticks[last] == len(times) - 1 \
                and last % mq == 0 and prepared:
            F = field(d, "r", "all", last, p.dim, 0, p.wrap)
            norms(s, p, mesh, F, times[-1], C, equant, normalize, e, cg)


def node_at(mesh, cell, x):
    """the support point of a cell at (about) a point"""
    r = []
    for a, c, h in zip(x, cell, mesh.h):
        b = [n for n in NODES[mesh.k] if abs((a / h - c) - n) < 1e-4]
        if not b:
            return None
        r.append((c + b[0]) * h)
    return tuple(r)


def compare(s, v, got, mesh, F, name, q, scale, tol, what, cg, subset):
    data = v.data[name]
    if cg:
        N = Nodal(mesh, F, q)
        for cell, pcs in got.items():
            for i in {i for pc in pcs for i in pc}:
                w = N(cell, v.x[i])
                require(abs(data[i] - w) <= tol * scale,
                        f"{what}: {name} is {data[i]} at {v.x[i]}, expected "
                        f"{w}")
        return
    # discontinuous elements: values at vertices
    bag = {}
    for cell, pcs in got.items():
        for i in {i for pc in pcs for i in pc}:
            if mesh.k == 0:
                x = tuple((c + .5) * h for c, h in zip(cell, mesh.h))
            else:
                x = node_at(mesh, cell, v.x[i])
                if x is None or any(abs(a / h - round(a / h)) > 1e-6
                                    for a, h in zip(x, mesh.h)):
                    continue
            bag.setdefault(F.cell(x), (x, []))[1].append(data[i])
    for x, vals in bag.values():
        ref = [q[i] for i in F.at(x)]
        if mesh.k == 0:
            require(len(ref) == 1, f"{what}: {len(ref)} nodes at {x}")
            ref = ref * len(vals)
        if not subset:
            require(len(ref) == len(vals), f"{what}: {len(vals)} values of "
                    f"{name} at {x} for {len(ref)} degrees of freedom")
        for w in vals:
            j = min(range(len(ref)), key=lambda i: abs(ref[i] - w))
            require(abs(ref[j] - w) <= tol * scale, f"{what}: {name} is {w} "
                    f"at {x}, expected one of {ref}")
            if mesh.k:
                ref.pop(j)


GX = [.5 - .5 * math.sqrt(.6), .5, .5 + .5 * math.sqrt(.6)]
GW = [5. / 18., 4. / 9., 5. / 18.]


def norms(s, p, mesh, F, t, C, quant, normalize, e, cg):
    A = [analytic(p, x, t) for x in F.x]
    L = {"Linf": 0., "L1": 0., "L2": 0.}
    for n in quant:
        u = [C[n](q) for q in F.v]
        a = [C[n](q) for q in A]
        err = [x - y for x, y in zip(u, a)]
        nrm = {}
        for k, w in (("e", err), ("a", a)):
            nrm[k] = {"Linf": max(map(abs, w))}
            if cg:
                N = Nodal(mesh, F, w)
                l1 = l2 = 0.
                vol = math.prod(mesh.h)
                for cell in mesh.cells():
                    for gp in itertools.product(range(3), repeat=p.dim):
                        x = [(c + GX[i]) * h for c, i, h in
                             zip(cell, gp, mesh.h)]
                        z = N(cell, x)
                        wt = vol * math.prod(GW[i] for i in gp)
                        l1 += wt * abs(z)
                        l2 += wt * z * z
                nrm[k]["L1"], nrm[k]["L2"] = l1, math.sqrt(l2)
        for k in nrm["e"]:
            L[k] += nrm["e"][k] / (nrm["a"][k] if normalize else 1.)
    for k in ("Linf", "L1", "L2") if cg else ("Linf",):
        require(abs(L[k] - e[k]) <= 1e-6 * max(1e-3, abs(L[k])),
                f"{k} error of {quant} is reported as {e[k]}, but is {L[k]} "
                f"(normalized: {normalize})")
    s.label("error norms")


# ------------------------------------------------------------ parameter files

def entries(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from entries(v, path + (k,))
        else:
            yield path + (k,)


def get(d, path):
    for k in path:
        d = d[k]
    return d


def put(d, path, v):
    if not path:
        return v
    r = dict(d)
    r[path[0]] = put(r.get(path[0], {}), path[1:], v)
    return r


def parse_prm(text):
    """a parameter file as nested dictionaries"""
    root, stack = {}, []
    cur = root
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if line.startswith("subsection "):
            stack.append(cur)
            cur = cur.setdefault(line[11:].strip(), {})
        elif line == "end":
            cur = stack.pop()
        elif line.startswith("set "):
            k, _, v = line[4:].partition("=")
            cur[k.strip()] = v.strip()
    require(not stack, "unbalanced subsections")
    return root


def value_of(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return ", ".join(value_of(x) for x in v)
    return str(v)


def equal(a, b):
    """two parameter values mean the same"""
    a = [x.strip() for x in re.split(r"[,]", a)]
    b = [x.strip() for x in re.split(r"[,]", b)]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        try:
            if float(x) == float(y) or abs(float(x) - float(y)) <= \
                    2e-6 * abs(float(x)):
                continue
        except ValueError:
            pass
        return False
    return True


def write(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


def scribble(s, cfg, ind=0):
    """the same parameters, written differently"""
    out = []
    items = list(cfg.items())
    items = [items[i] for i in sorted(range(len(items)),
                                      key=lambda _: s.bits())]
    for k, v in items:
        p = " " * s.range(0, 4)
        if s.chance(.2):
            out.append(p + "# set basename = nonsense")
        if s.chance(.1):
            out.append("")
        if isinstance(v, dict):
            parts = [v]
            if len(v) > 1 and s.chance(.3):
                # a subsection that is opened twice
                n = s.range(1, len(v) - 1)
                parts = [dict(list(v.items())[:n]), dict(list(v.items())[n:])]
            for q in parts:
                out += [f"{p}subsection {k}", scribble(s, q, ind + 1),
                        f"{p}end"]
        else:
            if s.chance(.1) and k not in ("configuration",):
                # the last one counts
                out.append(f"{p}set {k} = {value_of(v)}")
            e = s.pick(["=", " = ", "   =  "])
            out.append(f"{p}set {k}{e}{value_of(v)}" + s.pick(
                ["", "", " ", " # x"]))
    return "\n".join(out) + ("\n" if ind == 0 else "")


def dump(d, base="r"):
    return {os.path.basename(f): open(f).read()
            for f in glob.glob(f"{d}/{base}-all-*.dat")}


@facet("P30.parameters", 60, 2000)
def _(s):
    p = Problem(s, dims=(1, 2, 2, 3), cells=60, steps=(1, 3))
    cfg = p.cfg
    s.note("configuration", sorted(".".join(e) for e in entries(cfg)))
    with Dir() as d:
        r = run(cfg, d)
        ref = dump(d)
        require(ref, "no output")
        prm = open(f"{d}/r-parameters.prm").read()
    back = parse_prm(prm)
    for e in entries(cfg):
        try:
            v = get(back, e)
        except KeyError:
            raise Fail(f"{e} is missing in the recorded parameters")
        require(equal(v, value_of(get(cfg, e))), f"{e} is recorded as {v!r} "
                f"instead of {value_of(get(cfg, e))!r}")
    exe = binary(p.eq)
    kind = s.range(0, 2)
    with Dir() as d:
        if kind == 0:
            # (numbers are recorded with six digits: set those again)
            text = prm + scribble(s, cfg)
            s.label("recorded")
        elif kind == 1:
            text = scribble(s, cfg)
            s.label("rewritten")
        else:
            # values that are the default anyway
            every = [e for e in entries(back)
                     if e[0] in cfg and e not in set(entries(cfg))]
            c = cfg
            for _ in range(s.range(1, 12)):
                e = s.pick(every)
                c = put(c, e, get(back, e))
            text = scribble(s, c)
            s.label("defaults")
        write(d, "x.prm", text)
        r2 = launch([exe, "x.prm"], d)
        require(r2.rc == 0, f"the rewritten parameter file fails with "
                f"{r2.rc}: {r2.tail()}")
        got = dump(d)
        require(set(got) == set(ref), f"files {sorted(got)} against "
                f"{sorted(ref)}")
        for k in ref:
            require(got[k] == ref[k], f"{k} differs after rewriting the "
                    "parameter file")
        b2 = parse_prm(open(f"{d}/r-parameters.prm").read())
        require(b2 == back, "the recorded parameters differ: " + str(
            [e for e in entries(back) if e not in set(entries(b2)) or
             get(b2, e) != get(back, e)][:5]))
    s.nontrivial(True)


BAD = [
    ("unknown parameter", lambda s, c: put(
        c, (s.pick([k for k in c]), "no such parameter"), "1")),
    ("misspelt parameter", lambda s, c: (lambda e: put(
        c, e[:-1] + (e[-1] + "s",), "1"))(s.pick(
            [e for e in entries(c) if len(e) == 2]))),
    ("unknown subsection", lambda s, c: put(
        c, (s.pick(["L - Nothing", "time loop", "A-TimeLoop"]), "basename"),
        "x")),
    ("no number", lambda s, c: put(c, s.pick(
        [("A - TimeLoop", "final time"), ("A - TimeLoop", "timer granularity"),
         ("C - Discretization", "mesh refinement"),
         ("F - HyperbolicModule", "limiter", "iterations"),
         ("E - InitialValues", "position"),
         ("A - TimeLoop", "terminal update interval")]),
        s.pick(["abc", "1.0.0", "true"]))),
    ("no boolean", lambda s, c: put(c, ("A - TimeLoop", s.pick(
        ["enforce final time", "enable output full", "resume"])),
        s.pick(["maybe", "2", "1.5"]))),
    ("dimension", lambda s, c: put(c, ("B - Equation", "dimension"), s.pick(
        [0, 4, -1, "two"]))),
    ("equation", lambda s, c: put(c, ("B - Equation", "equation"), s.pick(
        ["eulers", "Euler", "navier-stokes", "maxwell", ""]))),
    ("ansatz", lambda s, c: put(c, ("C - Discretization",
                                    "finite element ansatz"), s.pick(
        ["cG Q0", "cG Q4", "dG Q4", "Q1", "cg q1"]))),
    ("geometry", lambda s, c: put(c, ("C - Discretization", "geometry"),
                                  s.pick(["rectangle", "", "cube"]))),
    ("configuration", lambda s, c: put(
        c, ("E - InitialValues", "configuration"),
        s.pick(["unform", "functions", "", "shock"]))),
    ("direction", lambda s, c: put(
        c, ("E - InitialValues", "direction"),
        [0.] * c["B - Equation"]["dimension"])),
    ("scheme", lambda s, c: put(
        c, ("H - TimeIntegrator", "time stepping scheme"),
        s.pick(["ssprk 44", "erk 55", "rk4", "", "ssprk33"]))),
    ("recovery", lambda s, c: put(
        c, ("H - TimeIntegrator", "cfl recovery strategy"),
        s.pick(["bang bang", "on", "yes"]))),
    ("boundary condition", lambda s, c: put(
        c, ("C - Discretization", "rectangular domain",
            "boundary condition left"), s.pick(["slipp", "wall", "-1"]))),
    ("vtu quantity", lambda s, c: put(
        c, ("J - VTUOutput", "vtu output quantities"),
        s.pick(["no_such_component", "q, r", "m_7"]))),
    ("schlieren quantity", lambda s, c: put(
        c, ("J - VTUOutput", "schlieren quantities"),
        s.pick(["none", "rho2", "m_9"]))),
    ("error quantity", lambda s, c: put(put(
        c, ("A - TimeLoop", "error quantities"),
        s.pick(["none", "m_9"])), ("A - TimeLoop", "enable compute error"),
        True)),
    ("number of points", lambda s, c: put(
        c, ("C - Discretization", "rectangular domain",
            "position top right"),
        [1.] * (c["B - Equation"]["dimension"] + 1))),
]


@facet("P30.refused", 90, 3000)
def _(s):
    p = Problem(s, dims=(1, 2, 2, 3), cells=30, steps=(1, 2))
    name, f = s.pick(BAD)
    cfg = f(s, p.with_(A={"enable output full": True}))
    s.note("mistake", name)
    s.label(name)
    np = s.pick([1, 1, 1, 2]) if p.dim > 1 else 1
    with Dir() as d:
        eq = p.eq
        write(d, "x.prm", render(cfg))
        r = launch([binary(eq), "x.prm"], d, np)
        changed = [e for e in entries(cfg) if e not in set(entries(p.cfg)) or
                   get(cfg, e) != get(p.cfg, e)]
        require(r.rc != 0, f"{name}: the program accepts "
                f"{[(e, get(cfg, e)) for e in changed]}")
        if name != "error quantity":
            require(not glob.glob(f"{d}/r-solution*"),
                    f"{name}: the program computed something before it failed")
        require("entering main loop" not in r.out or
                name == "error quantity", f"{name}: the computation starts")
    s.nontrivial(True)


@facet("P30.command_line", 20, 400)
def _(s):
    eq = s.pick(["euler", "shallow water", "scalar conservation"])
    exe = binary(eq)
    base = os.path.basename(exe)
    kind = s.range(0, 3)
    with Dir() as d:
        if kind == 0:
            r = launch([exe, "missing.prm"], d)
            require(r.rc != 0, "a missing parameter file is ignored")
            require(not os.listdir(d), "output without a parameter file: ",
                    str(os.listdir(d)))
            s.label("missing")
        elif kind == 1:
            p = Problem(s, eqs=(eq,), cells=20, steps=(1, 1))
            write(d, "a.prm", render(p.cfg))
            r = launch([exe, "a.prm", s.pick(["a.prm", "b.prm", "--help"])],
                       d)
            require(r.rc != 0, "a second argument is accepted")
            require(os.listdir(d) == ["a.prm"], "output in spite of the "
                    "second argument: ", str(os.listdir(d)))
            s.label("two arguments")
        elif kind == 2:
            # the default parameter file is used without arguments
            p = Problem(s, eqs=(eq,), cells=20, steps=(1, 2))
            write(d, base + ".prm", render(p.cfg))
            r = launch([exe], d)
            require(r.rc == 0, "the default parameter file fails: ", r.tail())
            one = dump(d)
            with Dir() as d2:
                run(p.cfg, d2)
                require(one == dump(d2), "the default parameter file gives "
                        "other results")
            s.label("default name")
        else:
            r = launch([exe], d)
            require(r.rc != 0, "no parameter file, but exit code 0")
            n = eq.replace(" ", "_")
            dim = s.range(1, 3)
            f = f"default_parameters-{n}-{dim}d.prm"
            require(os.path.exists(f"{d}/{f}"), f"no template {f}")
            c = parse_prm(open(f"{d}/{f}").read())
            require(c["B - Equation"]["equation"] == eq and
                    c["B - Equation"]["dimension"] == str(dim),
                    f"{f} is for {c['B - Equation']}")
            if eq == "shallow water" and dim == 3:
                return      # (no initial state of ours)
            p = Problem(s, eqs=(eq,), dims=(dim,), cells=20, steps=(1, 2))
            # a template can be used as it is, with changed parameters
            write(d, "t.prm", open(f"{d}/{f}").read() + render(p.cfg))
            r = launch([exe, "t.prm"], d)
            require(r.rc == 0, f"the template {f} fails: {r.tail()}")
            one = dump(d)
            with Dir() as d2:
                run(p.cfg, d2)
                require(one == dump(d2), f"{f} does not hold the default "
                        "parameters")
            s.label("template")
    s.nontrivial(True)


if __name__ == "__main__":
    sys.exit(main())
