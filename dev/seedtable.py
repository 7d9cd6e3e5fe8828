#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, re.sub(r"\s+", " ", m["needs"]).replace("|", "/")))
t = "\n".join(["| change | caught by | needs |", "|-|-|-|"] + [f"| {d} | {p} | {n} |" for p, d, n in sorted(rows)])
p = root + "/DESIGN.md"
s = open(p).read()
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE", "<!-- seeds -->\n\n<!-- /seeds -->")
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + t + "\n" + s[b:])
