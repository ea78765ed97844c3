#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (checks that report it: caught.json, if any)."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| planted bug | caught by | what it breaks | needs |\n|--|--|--|--|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
