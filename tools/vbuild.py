#!/usr/bin/env python3
"""Small content-addressed build driver for the harnesses.

Everything is compiled from /repo's current working tree.  Objects are cached
in /verif/build under a key made of the compiler flags and of the
*preprocessed* translation unit (comments and line markers stripped), so that
a check recompiles exactly what a change in /repo alters, no matter what the
file time stamps say.

The repository's instantiation files (foo.cc with `template class Foo<..., D,
...>;`) are split by space dimension, to compile only the dimensions a harness
links and to compile them in parallel.  A file whose layout is not recognised
is compiled as it is.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = REPO + "/source"
HARNESS = VERIF + "/harness"

CXX = "/usr/bin/g++"
SYS = [
    "/usr/lib/x86_64-linux-gnu/openmpi/include",
    "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
    "/usr/include/petsc", "/usr/include/trilinos",
    "/usr/include/hdf5/openmpi", "/usr/include/scotch",
    "/usr/include/suitesparse", "/usr/include/opencascade",
    "/usr/include/slepc",
]
BASE_FLAGS = (
    "-DNDEBUG -std=c++17 -O1 -g0 -w -fopenmp -fstrict-aliasing"
    " -fno-diagnostics-color"
).split() + sum((["-isystem", s] for s in SYS), [])
LINK = (
    "-fopenmp -rdynamic -fuse-ld=gold"
    " -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi:"
    "/usr/lib/x86_64-linux-gnu/openmpi/lib"
    " -L/usr/lib/x86_64-linux-gnu -L/usr/lib/x86_64-linux-gnu/openmpi/lib"
    " -ldeal.ii -lpetsc_real -ltbb -ltrilinos_epetra -ltrilinos_teuchoscore"
    " -ltrilinos_teuchosparameterlist -ltrilinos_teuchoscomm"
    " -ltrilinos_tpetra -ltrilinos_kokkoscore -ltrilinos_sacado"
    " -lboost_iostreams -lboost_serialization -lboost_system"
    " -lmuparser -lgsl -lgslcblas -lmpi_cxx -lmpi -lp4est -lsc -ladolc"
    " -lz -lm -lpthread"
).split()

EQUATIONS = {
    "euler": ["limiter", "riemann_solver", "initial_state_library"],
    "euler_aeos": ["limiter", "riemann_solver", "initial_state_library",
                   "equation_of_state_library"],
    "shallow_water": ["limiter", "riemann_solver", "initial_state_library"],
    "scalar_conservation": ["limiter", "riemann_solver",
                            "initial_state_library", "flux_library"],
    "navier_stokes": ["initial_state_library", "parabolic_solver"],
    "skeleton": ["initial_state_library"],
}
SYS_MODULES = ["hyperbolic_module", "initial_values", "parabolic_module",
               "time_integrator"]
LOOP_MODULES = SYS_MODULES + ["mesh_adaptor", "postprocessor", "quantities",
                              "time_loop", "vtu_output"]
COMMON = ["discretization", "multicomponent_vector", "offline_data", "simd",
          "sparse_matrix_simd"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def options_header():
    """compile_time_options.h as /opt/vp/build.sh configures it."""
    with open(SRC + "/compile_time_options.h.in") as f:
        t = f.read()
    on = {"DENORMALS_ARE_ZERO", "WITH_OPENMP"}
    t = t.replace("@NUMBER@", "double")
    t = re.sub(r"#cmakedefine (\w+)",
               lambda m: f"#define {m[1]}" if m[1] in on
               else f"/* #undef {m[1]} */", t)
    write_if_changed(BUILD + "/include/compile_time_options.h", t)


class Obj:
    """One object file: `src` compiled with `flags`."""

    def __init__(self, src, flags=(), dim=None, eq=None):
        self.src, self.dim, self.eq = src, dim, eq
        self.flags = list(flags)
        inc = []
        if eq:
            inc += ["-I" + SRC + "/" + eq]
        inc += ["-I" + BUILD + "/include", "-I" + SRC, "-I" + HARNESS]
        self.inc = inc
        self.name = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/"))
        if eq:
            self.name += "." + eq
        if dim:
            self.name += f".d{dim}"
        self.tag = sha(self.name, *self.flags)[:10]

    def unit(self):
        """Path of the file to compile."""
        if not self.dim:
            return self.src
        with open(self.src) as f:
            text = f.read()
        out, found = [], set()
        for line in text.splitlines():
            m = re.match(
                r"\s*(?:template\s+class\s+[\w:]+<\s*(?:Description\s*,\s*)?"
                r"([123])\s*[,>].*>;|INSTANTIATE\(\s*([123])\s*,.*\);)\s*$",
                line)
            if m:
                d = int(m[1] or m[2])
                found.add(d)
                if d != self.dim:
                    continue
            out.append(line)
        if found != {1, 2, 3}:
            if "sparse_matrix_simd" in self.src:
                return self.src
            # layout not recognised: dimension 2 carries the whole file
            text2 = text if self.dim == 2 else ""
            path = f"{BUILD}/gen/{self.name}.cc"
            write_if_changed(path, text2)
            return path
        path = f"{BUILD}/gen/{self.name}.cc"
        write_if_changed(path, "\n".join(out) + "\n")
        return path

    def build(self):
        unit = self.unit()
        inc = ["-I" + os.path.dirname(self.src)] if unit != self.src else []
        cmd = [CXX] + BASE_FLAGS + self.flags + self.inc + inc
        # first level: the files this unit read last time are unchanged
        note = f"{BUILD}/obj/{self.name}.{self.tag}.deps"
        last = self.recall(note, cmd)
        if last:
            return last
        dep = f"{BUILD}/obj/{self.name}.{self.tag}.{os.getpid()}.d"
        os.makedirs(BUILD + "/obj", exist_ok=True)
        r = subprocess.run(cmd + ["-E", "-P", "-MMD", "-MF", dep, unit],
                           capture_output=True)
        if r.returncode:
            raise BuildError(f"{unit}: {r.stderr.decode()[-3000:]}")
        text = re.sub(rb"\n\s*\n+", b"\n", r.stdout)
        key = sha(text, *BASE_FLAGS, *self.flags)[:32]
        path = f"{BUILD}/obj/{self.name}.{self.tag}.{key}.o"
        if not os.path.exists(path):
            tmp = f"{path}.{os.getpid()}.tmp.o"
            r = subprocess.run(cmd + ["-c", unit, "-o", tmp],
                               capture_output=True)
            if r.returncode:
                raise BuildError(f"{unit}: {r.stderr.decode()[-3000:]}")
            os.replace(tmp, path)
            self.fresh = True
            # drop stale versions of this object
            for f in os.listdir(BUILD + "/obj"):
                if (f.startswith(f"{self.name}.{self.tag}.")
                        and f.endswith(".o") and key not in f and not f.endswith(".tmp.o")
                        and not os.environ.get("VERIF_KEEP")):
                    try:
                        os.unlink(f"{BUILD}/obj/{f}")
                    except OSError:
                        pass
        with open(dep) as f:
            deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
        os.unlink(dep)
        rec = {"cmd": sha(*cmd, unit), "obj": path,
               "deps": {d: sha(open(d, "rb").read()) for d in deps}}
        tmp = f"{note}.{os.getpid()}"
        with open(tmp, "w") as f:
            json.dump(rec, f)
        os.replace(tmp, note)
        return path

    def recall(self, note, cmd):
        try:
            with open(note) as f:
                rec = json.load(f)
            if rec["cmd"] != sha(*cmd, self.unit()):
                return None
            if not os.path.exists(rec["obj"]):
                return None
            for d, v in rec["deps"].items():
                if sha(open(d, "rb").read()) != v:
                    return None
            return rec["obj"]
        except (OSError, ValueError, KeyError):
            return None


def repo(name, eq=None, dims=(None,), sub=False):
    base = f"{SRC}/{eq}/{name}.cc" if sub else f"{SRC}/{name}.cc"
    return [Obj(base, dim=d, eq=eq) for d in dims]


def common_objs(dims):
    out = []
    for m in COMMON:
        if m in ("discretization", "offline_data"):
            out += repo(m, dims=dims)
        else:
            out += repo(m)
    return out


def eq_objs(eq, dims, modules):
    out = []
    for m in EQUATIONS[eq]:
        if m in ("equation_of_state_library", "flux_library"):
            out += repo(m, eq, sub=True)
        else:
            out += repo(m, eq, dims, sub=True)
    if eq == "navier_stokes":
        for m in ("limiter", "riemann_solver"):
            out += repo(m, "euler", dims, sub=True)
    for m in modules:
        out += repo(m, eq, dims)
    return out


VERSION = ['-DRYUJIN_VERSION="0"', '-DRYUJIN_GIT_REVISION="0"',
           '-DRYUJIN_GIT_SHORTREV="0"']


def driver_objs(eqs, dims):
    """The repository's own program, for some equations and dimensions."""
    out = common_objs(dims) + [Obj(SRC + "/version_info.cc", VERSION),
                               Obj(SRC + "/equation_dispatch.cc"),
                               Obj(SRC + "/main.cc")]
    seen = set()
    for eq in eqs:
        for o in eq_objs(eq, dims, LOOP_MODULES):
            if o.name not in seen:
                seen.add(o.name)
                out.append(o)
        out.append(Obj(f"{SRC}/{eq}/equation_dispatch.cc", eq=eq))
    return out


def sys_objs(eqs, dims):
    out, seen = common_objs(dims) + [
        Obj(SRC + "/version_info.cc", VERSION)], set()
    for eq in eqs:
        for o in eq_objs(eq, dims, SYS_MODULES):
            if o.name not in seen:
                seen.add(o.name)
                out.append(o)
    return out


def h(name, eq=None, flags=()):
    return Obj(f"{HARNESS}/{name}.cc", flags=flags, eq=eq)


def dedupe(objs):
    seen, out = set(), []
    for o in objs:
        k = (o.name, o.tag)
        if k not in seen:
            seen.add(k)
            out.append(o)
    return out


def build(targets, table, jobs=None, verbose=False):
    """Build the named binaries; returns {name: path}."""
    os.makedirs(BUILD + "/bin", exist_ok=True)
    options_header()
    jobs = jobs or os.cpu_count() or 4
    lists = {t: dedupe(table[t]()) for t in targets}
    objs = dedupe([o for t in targets for o in lists[t]])
    # expensive objects first
    heavy = ("hyperbolic_module", "time_loop", "parabolic_solver", "harness")
    objs.sort(key=lambda o: not any(x in o.name for x in heavy))
    t0 = time.time()
    paths, errors = {}, []
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(o.build): o for o in objs}
        for f in cf.as_completed(futs):
            o = futs[f]
            try:
                paths[(o.name, o.tag)] = f.result()
            except BuildError as e:
                errors.append(str(e))
                for g in futs:
                    g.cancel()
            except cf.CancelledError:
                pass
    if errors:
        raise BuildError("\n".join(errors[:3]))

    def link(t):
        ins = [paths[(o.name, o.tag)] for o in lists[t]]
        key = sha(*ins, *LINK)[:24]
        out = f"{BUILD}/bin/{t}.{key}"
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}.tmp"
            r = subprocess.run([CXX] + ins + ["-o", tmp] + LINK,
                               capture_output=True)
            if r.returncode:
                raise BuildError(f"link {t}: {r.stderr.decode()[-3000:]}")
            os.replace(tmp, out)
            for f in os.listdir(BUILD + "/bin"):
                if (f.startswith(t + ".") and key not in f
                        and not os.environ.get("VERIF_KEEP")):
                    try:
                        os.unlink(f"{BUILD}/bin/{f}")
                    except OSError:
                        pass
        return out

    bins = {}
    with cf.ThreadPoolExecutor(min(4, jobs)) as ex:
        for t, p in zip(targets, ex.map(link, targets)):
            bins[t] = p
    n = sum(1 for o in objs if getattr(o, "fresh", False))
    if verbose:
        print(f"built {n} of {len(objs)} objects, {len(targets)} programs"
              f" in {time.time() - t0:.1f} s", file=sys.stderr)
    return bins
