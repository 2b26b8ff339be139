"""The property-based testing kernel of pbt.h, for checks that drive whole
programs: same tapes, same command line, same output."""
import argparse
import json
import math
import os
import signal
import sys
import time

M = (1 << 64) - 1
FACETS = []


class Discard(Exception):
    pass


class Fail(Exception):
    pass


class Known(Exception):
    pass


def mix(z):
    z = (z + 0x9e3779b97f4a7c15) & M
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
    return z ^ (z >> 31)


def hash_str(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & M
    return h


class Src:
    def __init__(self, tape=None, state=0, replaying=False):
        self.tape = list(tape or [])
        self.pos = 0
        self.state = state
        self.replaying = replaying
        self.is_nontrivial = False
        self.labels, self.notes, self.counts = [], [], {}

    def bits(self):
        if self.pos < len(self.tape):
            v = self.tape[self.pos]
        else:
            v = 0
            if not self.replaying:
                self.state = (self.state + 0x9e3779b97f4a7c15) & M
                v = mix(self.state)
            self.tape.append(v)
        self.pos += 1
        return v

    def range(self, a, b):
        return a if b <= a else a + self.bits() % (b - a + 1)

    def unit(self):
        return (self.bits() >> 11) * 2. ** -53

    def chance(self, p):
        return self.unit() > 1. - p

    def uniform(self, a, b):
        return a + (b - a) * self.unit()

    def logu(self, a, b):
        return a * math.exp(self.unit() * math.log(b / a))

    def pick(self, seq):
        return seq[self.range(0, len(seq) - 1)]

    def label(self, s):
        self.labels.append(s)

    def note(self, k, v):
        self.notes.append((k, str(v)))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def nontrivial(self, b=True):
        self.is_nontrivial = self.is_nontrivial or b


def facet(name, quick, thorough, limit=120.):
    def deco(fn):
        FACETS.append((name, quick, thorough, limit, fn))
        return fn
    return deco


def require(ok, *msg):
    if not ok:
        raise Fail("".join(str(m) for m in msg))


def close(a, b, tol, *msg):
    if not abs(a - b) <= tol:
        raise Fail("".join(str(m) for m in msg) +
                   f": {a!r} vs {b!r} (difference {abs(a - b)}, "
                   f"tolerance {tol})")


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run_one(f, s):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(f[3]) + 1)
    try:
        f[4](s)
        return "ok", ""
    except Discard:
        return "discard", ""
    except Known as e:
        return "known", str(e)
    except Fail as e:
        return "fail", str(e)
    except Timeout:
        # an overloaded machine is no evidence against the code
        return "discard", "time limit"
    finally:
        signal.alarm(0)


def shrink(f, t, msg, budget):
    end = time.time() + budget
    cur = [t, msg]

    def attempt(c):
        if c == cur[0] or time.time() > end:
            return False
        s = Src(c, replaying=True)
        r, m = run_one(f, s)
        used = s.tape[:s.pos]
        if r == "fail" and (len(used), used) < (len(cur[0]), cur[0]):
            cur[0], cur[1] = used, m
            return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        n = max(1, len(cur[0]) // 2)
        while n >= 1 and time.time() < end:
            i = 0
            while i + n <= len(cur[0]) and time.time() < end:
                c = cur[0][:i] + cur[0][i + n:]
                if attempt(c):
                    progress = True
                    continue
                c = cur[0][:i] + [0] * n + cur[0][i + n:]
                progress = attempt(c) or progress
                i += n
            n //= 2
    return cur


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    for o in ("facet", "out", "replay", "progress"):
        ap.add_argument("--" + o)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--cases", type=int, default=-1)
    ap.add_argument("--time", type=float, default=1e9)
    ap.add_argument("--shrink-time", type=float, default=20.)
    a = ap.parse_args()
    if a.list:
        for n, q, t, lim, _ in FACETS:
            print(n, q, t, lim)
        return 0
    if a.replay:
        name, tape = None, []
        for line in open(a.replay):
            w = line.split()
            if w and w[0] == "facet":
                name = w[1]
            elif w and w[0] == "tape":
                tape = [int(x) for x in w[1:]]
        f = next(f for f in FACETS if f[0] == name)
        s = Src(tape, replaying=True)
        r, m = run_one(f, s)
        for k, v in s.notes:
            print(f"  {k} = {v}")
        print(r.upper(), m)
        return {"fail": 1, "known": 4}.get(r, 0)
    f = next(f for f in FACETS if f[0] == a.facet)
    cases = a.cases if a.cases >= 0 else (f[2] if a.thorough else f[1])
    t0 = time.time()
    res = {"facet": f[0], "seed": a.seed, "first": a.first,
           "requested": cases, "evaluated": 0, "discarded": 0,
           "nontrivial": 0, "labels": {}, "counts": {}, "known": {},
           "samples": []}
    distinct = set()
    k = a.first
    while k < a.first + cases and time.time() - t0 < a.time:
        if a.progress:
            with open(a.progress, "w") as p:
                p.write(f"{k}\n")
        s = Src(state=mix((a.seed * 1000003 + mix(hash_str(f[0])) +
                           mix(k + 77)) & M))
        r, m = run_one(f, s)
        for x in s.labels:
            res["labels"][x] = res["labels"].get(x, 0) + 1
        for x, n in s.counts.items():
            res["counts"][x] = res["counts"].get(x, 0) + n
        if r == "discard":
            res["discarded"] += 1
        elif r == "known":
            res["known"][m] = res["known"].get(m, 0) + 1
        else:
            res["evaluated"] += 1
            if s.is_nontrivial:
                res["nontrivial"] += 1
                distinct.add(tuple(s.tape[:s.pos]))
                if len(res["samples"]) < 4 and s.notes:
                    res["samples"].append(f"case {k}: " + ", ".join(
                        f"{x}={y}" for x, y in s.notes)[:600])
            if r == "fail":
                t, m2 = shrink(f, s.tape[:s.pos], m, a.shrink_time)
                s2 = Src(t, replaying=True)
                run_one(f, s2)
                res.update(fail_case=k, message=m2, first_message=m,
                           tape=[str(x) for x in t],
                           notes=dict(s2.notes))
                break
        k += 1
    res["distinct_nontrivial"] = len(distinct)
    res["wall_s"] = time.time() - t0
    out = json.dumps(res)
    if a.out:
        with open(a.out, "w") as o:
            o.write(out + "\n")
    else:
        print(out)
    return 1 if "fail_case" in res else 0
