#!/usr/bin/env python3
"""mkseed.py ID PROP FILE: reads OLD and NEW blocks from stdin separated by a line '=====' (several edits separated by a line '#####', each
optionally starting with '@@ path'), edits /repo, stores the diff and meta.json of a planted bug, and undoes the edit.
Lines before the first '-----' line are 'needs' and 'what' (one line each)."""
import json, os, subprocess, sys
sid, prop, path = sys.argv[1:4]
REPO = os.environ.get("SEED_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = sys.stdin.read()
head, body = text.split("-----\n", 1)
needs, what = [l for l in head.strip().split("\n")]
d = f"{ROOT}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
assert subprocess.check_output(["git", "-C", REPO, "status", "--porcelain"]) == b""
try:
    for e in body.split("#####\n"):
        p = path
        if e.startswith("@@ "):
            l, e = e.split("\n", 1)
            p = l[3:].strip()
        old, new = e.split("=====\n", 1)
        old = old.rstrip("\n"); new = new.rstrip("\n")
        s = open(REPO + "/" + p).read()
        assert s.count(old) == 1, (p, s.count(old), old)
        open(REPO + "/" + p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", REPO, "diff"])
    open(d + "/patch.diff", "wb").write(diff)
finally:
    subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
demo = d + "/demo.sh"
if not os.path.exists(demo):
    open(demo, "w").write('''#!/bin/bash
# Run in /repo after the build: 0 when the property holds, nonzero otherwise.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -I include -I src -I src/stun -I "$HERE" -DHAVE_OPENSSL=1 "$HERE/demo.cpp" -o "$T/demo" \\
    _build/libsrtc.a _build/src/stun/libsrtc_stun.a -lssl -lcrypto -lpthread
timeout 120 "$T/demo"
''')
