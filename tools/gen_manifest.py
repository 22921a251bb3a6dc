#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": c.get("technique", "bounded exhaustive exploration of the real code (stateless model checking)"),
        "level": "model_checking",
        "level_note": " Also: ".join(dict.fromkeys([c["note"]] + [m["note"] for m in c.get("more", [])])),
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built for it yet")} for p in props if p not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks explore the real code built from /repo's working tree. No hooks are needed in /repo: clocks, "
    "randomness, sockets and threads are interposed at link time by the harness executables.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
