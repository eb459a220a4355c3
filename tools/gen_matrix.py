#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {' '.join(m['needs'].split()).replace('|', '/')} |")
p = R / "DESIGN.md"
s = p.read_text()
a, b = "<!-- matrix -->\n", "<!-- end of matrix -->\n"
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + "\n".join(rows) + "\n" + s[j:])
