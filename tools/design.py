#!/usr/bin/env python3
"""Write DESIGN.md: design_body.md and the table of planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "tools", "design_body.md"), encoding="utf8") as f:
    text = f.read()
rows = ["", "| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
base = os.path.join(HERE, "seeded")
MISSED = set()
for n in sorted(os.listdir(base)):
    with open(os.path.join(base, n, "meta.json"), encoding="utf8") as f:
        m = json.load(f)
    rows.append("| %s | %s | %s | %s |" % (n, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"),
                                       "(missed)" if n in MISSED else m["property"]))
with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf8") as f:
    f.write(text + "\n".join(rows) + "\n")
