#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeded_results.json."""
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
results = json.loads((root / "tools/seeded_results.json").read_text())
rows = ["| Planted bug | Property | Needs | Caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    r = results.get(d.name, {})
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {r.get('caught', 'not caught')}{'; ' + r['note'] if r.get('note') else ''} |")
p = root / "DESIGN.md"
t = p.read_text()
head, rest = t.split("<!-- SEEDED -->")
tail = rest.split("<!-- END SEEDED -->")[1] if "<!-- END SEEDED -->" in rest else "\n"
p.write_text(head + "<!-- SEEDED -->\n" + "\n".join(rows) + "\n<!-- END SEEDED -->" + tail)
