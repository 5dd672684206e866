#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
v = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
also = {}
f = v / "tools" / "also.json"
if f.exists():
    also = json.loads(f.read_text())
for m in sorted((v / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    by = d["property"] + (", also " + ", ".join(also[m.parent.name]) if also.get(m.parent.name) else "")
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} | {by} |")
p = v / "DESIGN.md"
t = p.read_text()
new = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
t = t.replace("@@TABLE@@", "<!-- table -->\n<!-- end -->")
t = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: new, t, flags=re.S)
p.write_text(t)
