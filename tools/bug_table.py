#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (section 6) from seeded/*/meta.json."""
import json, pathlib
top = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | what it needs | what it breaks |", "|---|---|---|---|"]
for d in sorted((top / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
doc = top / "DESIGN.md"
t = doc.read_text()
a, b = t.index("<!-- bugs -->"), t.index("<!-- /bugs -->")
doc.write_text(t[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + t[b:])
