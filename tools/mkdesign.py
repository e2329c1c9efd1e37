#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/DESIGN.in.md with the table of planted bugs filled in."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Bug | Check | Needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
s = open(os.path.join(ROOT, "tools/DESIGN.in.md")).read().replace("TABLE\n", "\n".join(rows) + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
