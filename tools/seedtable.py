"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "\n### All planted bugs"
s = open(os.path.join(V, "DESIGN.md")).read().split(MARK)[0].rstrip("\n") + "\n"
s += MARK + " (each caught by its property's quick check unless noted)\n\n| id | caught by | what it breaks |\n|---|---|---|\n"
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    s += f"| {i} | {m.get('caught_by', m['property'])} | {' '.join(m['what_it_breaks'].split())} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(s)
