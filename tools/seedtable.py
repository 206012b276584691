#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded*/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(f"{V}/seeded*/*/meta.json"), key=lambda m: m.split("/")[-2]):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
t = open(f"{V}/DESIGN.md").read()
mark = "<!-- seeds -->\n"
open(f"{V}/DESIGN.md", "w").write(t[:t.index(mark) + len(mark)] + "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
