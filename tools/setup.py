#!/usr/bin/env python3
"""Build every harness of every claimed check (setup_cmd)."""
import os
import sys

sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
import vbuild  # noqa: E402
from targets import T  # noqa: E402
from props import PROPS  # noqa: E402

names = []
for p in PROPS.values():
    for b in p["bins"]:
        if b in T and b not in names:
            names.append(b)
try:
    vbuild.build(names, T, verbose=True)
except vbuild.BuildError as e:
    sys.stderr.write(str(e) + "\n")
    sys.exit(1)
