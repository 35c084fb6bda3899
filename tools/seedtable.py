"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
h = "| bug | caught by | breaks | needs |\n|---|---|---|---|\n"
rows = []
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n")
open(p, "w").write(t[:t.index(h)] + h + "".join(rows))
