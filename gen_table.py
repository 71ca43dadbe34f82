#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).parent
rows = ["| planted bug | found by | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| `{d.name}` | {m['property']} quick | {m['needs']} |")
f = root / "DESIGN.md"
t = f.read_text()
a, b = "<!-- table -->\n", "<!-- end of table -->"
head, rest = t.split(a, 1)
tail = rest.split(b, 1)[1]
f.write_text(head + a + "\n".join(rows) + "\n" + b + tail)
