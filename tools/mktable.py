"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{root}/DESIGN.md").read()
for mark in ("@@TABLE@@", "## Planted bugs"):
    if mark in s:
        s = s[:s.index(mark)]
        break
caught = json.load(open(f"{root}/tools/caught.json")) if os.path.exists(f"{root}/tools/caught.json") else {}
rows = []
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, '?')} |")
s += "## Planted bugs (`seeded/`)\n\nEach passes the 637 stable tests; the last column is what reported it (quick tier).\n\n"
s += "| id | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(f"{root}/DESIGN.md", "w").write(s)
