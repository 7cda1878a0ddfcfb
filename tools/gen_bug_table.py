#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand; no check reads seeded/)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = {"p05-eof-size": "P09", "p20-signed-width": "P04", "p07-string-eof": "P23", "p16-opus-samples-16": "P11"}
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    by = m["property"] + (", " + also[d] if d in also else "")
    rows.append(f"| {d} | {by} | {m['needs']} |")
t = open(root + "/DESIGN.md").read()
a = t.index("| bug | caught by | needs |")
b = t.index("\n\n", a)
t = t[:a] + "| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + t[b:]
open(root + "/DESIGN.md", "w").write(t)
print(len(rows))
