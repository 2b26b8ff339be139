"""P19: a crash while checkpointing does not lose the computation."""
import atexit
import glob
import os
import re
import shutil
import subprocess
import sys

from minipbt import Discard, facet, main, require
from prog import Dir, Problem, field, points_cycle, robust, run, same

SUFFIXES = [".mesh", ".mesh_fixed.data", ".mesh.info", ".metadata"]
HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = []


def shim():
    if not SHIM:
        so = os.path.join(os.environ.get("VERIF_WORK", "/tmp"),
                          f"crash_shim.{os.getpid()}.so")
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so,
                        HERE + "/crash_shim.c", "-ldl"], check=True)
        atexit.register(lambda: os.path.exists(so) and os.remove(so))
        SHIM.append(so)
    return SHIM[0]


def outputs(d):
    return sorted(int(re.search(r"-R(\d+)-inst", f).group(1))
                  for f in glob.glob(f"{d}/r-all-R*-instantaneous.dat"))


def read(d, p, c):
    return field(d, "r", "all", c, p.dim, points_cycle(d, "r", "all", c),
                 p.wrap)


def size(f):
    return os.path.getsize(f) if os.path.exists(f) else -1


def recover(d, meta):
    """what an operator does after a crash: the metadata file is written last,
    so use the current files if it is complete and the backups if not; a file
    that was already moved away is the backup"""
    b = f"{d}/r-checkpoint"
    current = size(b + ".metadata") == meta
    for x in SUFFIXES:
        if os.path.exists(b + x + "~"):
            if not current or not os.path.exists(b + x):
                os.replace(b + x + "~", b + x)
        elif not current:
            return False
    return all(os.path.exists(b + x) for x in SUFFIXES)


def crash(s, nps):
    p = Problem(s, dims=(2, 2, 3), cells=80, steps=(2, 4))
    n = s.range(2, 4)
    g = float(f"{p.T / n:.12g}")
    q = s.pick([1, 1, 1, 2])
    np = s.pick(nps)
    cfg = p.with_(A={"timer granularity": g, "final time": n * g,
                     "enable checkpointing": True,
                     "timer checkpoint multiplier": q})
    env = {"LD_PRELOAD": shim(), "CRASH_LOG": "log", "CRASH_AT": "0"}
    with Dir() as d:
        run(cfg, d, np, env=env)
        A = {c: read(d, p, c) for c in outputs(d)}
        ops = [x.split() for x in open(d + "/log")]
        meta = size(d + "/r-checkpoint.metadata")
    # operations that complete a checkpoint, and its output cycle
    done = [int(x[0]) for x in ops
            if x[1] == "close" and x[2] == "r-checkpoint.metadata"]
    cycles = [c for c in A if c % q == 0]
    require(len(done) == len(cycles), f"{len(done)} checkpoints were written, "
            f"expected {len(cycles)}")
    if len(done) < 2:
        raise Discard()
    # after the first checkpoint, mostly at the operations on the real files
    real = [int(x[0]) for x in ops if int(x[0]) > done[0] and
            any(x[2] in ("r-checkpoint" + y, "r-checkpoint" + y + "~")
                for y in SUFFIXES)]
    later = [i for i in range(done[0] + 1, len(ops) + 1)]
    for k in range(s.range(1, 3)):
        at = s.pick(real) if s.chance(.8) else s.pick(later)
        mode = s.range(0, 2)
        np2 = s.pick([np, 1, 2])
        op = ops[at - 1]
        what = (f"crash {'before,in the middle of,after'.split(',')[mode]} "
                f"operation {at} ({op[1]} {op[2]}) with {np} ranks")
        s.note(f"crash {k}", what + f", resumed with {np2}")
        last = max(c for c, i in zip(cycles, done) if i < at or
                   (i == at and mode == 2))
        with Dir() as d:
            e = dict(env, CRASH_AT=str(at), CRASH_MODE=str(mode))
            r = run(cfg, d, np, env=e, ok=False)
            if r.rc == 0 or not os.path.exists(d + "/log") or \
                    len(open(d + "/log").readlines()) < at:
                raise Discard()         # some other operation count
            shutil.rmtree(d + "/log", ignore_errors=True)
            require(recover(d, meta), f"{what}: there is no complete "
                    f"checkpoint: {sorted(os.listdir(d))}")
            for f in glob.glob(f"{d}/r-all-R*"):
                os.remove(f)
            from prog import merge
            r = run(merge(cfg, {"A - TimeLoop": {"resume": True}}), d, np2,
                    ok=False)
            require(r.rc == 0, f"{what}: resuming fails with {r.rc}: "
                    f"{r.tail()}")
            have = outputs(d)
            require(have and have[0] >= last, f"{what}: resumed at "
                    f"{have[:1]} although the checkpoint of output {last} "
                    "was complete")
            require(have == [c for c in A if c >= have[0]],
                    f"{what}: outputs {have}")
            for c in have:
                f = read(d, p, c)
                require(abs(f.t - A[c].t) <= 1e-10 * p.T,
                        f"{what}: output {c} at {f.t!r}, not {A[c].t!r}")
                same(A[c], f, p.tol, f"{what}: output {c}")
        s.count("crashes")
        s.label("crash " + op[1])
        s.nontrivial(op[2].startswith("r-checkpoint"))


@facet("P19.crash", 60, 2500)
@robust
def _(s):
    crash(s, [1])


@facet("P19.crash_mpi", 25, 800)
@robust
def _(s):
    crash(s, [2, 3])


sys.exit(main())
