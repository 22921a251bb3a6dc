#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
head = "| change | caught by the check of | what breaks | needs |\n|---|---|---|---|\n"
i = s.index("| change |")
j = s.index("\n\n", i) + 1
rows = ""
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", name, "meta.json")))
    rows += "| %s | %s | %s | %s |\n" % (name, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."))
open(path, "w").write(s[:i] + head + rows + s[j:])
