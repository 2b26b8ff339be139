#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
from props import PROPS, VERIF, NOT_APPLICABLE  # noqa: E402

with open(VERIF + "/properties.jsonl", "w") as f:
    for pid in sorted(PROPS):
        p = PROPS[pid]
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        anchors = {"files": p["files"], "mechanism": p["mechanism"],
                   "observe_at": p["observe"], "hook_needed": None}
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": pid,
        "quick_cmd": f"bin/check {pid} quick",
        "thorough_cmd": f"bin/check {pid} thorough",
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["level_note"],
        "evidence_file": f"evidence/{pid}.json",
    } for pid, p in sorted(PROPS.items())],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks: all harnesses use the public interface of the "
             "classes or the configured program. Known findings: "
             "known-findings.txt.",
}
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
