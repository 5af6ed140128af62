#!/usr/bin/env python3
"""Rewrite the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    rows.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
t = "| check | changes |\n|---|---|\n" + "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(rows.items()))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| check \| changes \|\n\|---\|---\|\n(\|.*\n)+", lambda m: t, s)
open(p, "w").write(s)
