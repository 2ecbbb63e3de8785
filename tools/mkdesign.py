#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {', '.join(m.get('caught_by', [m['property']]))} |")
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| id | needs, to manifest | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "planted bugs")
