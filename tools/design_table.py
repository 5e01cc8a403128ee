"""Rewrites the table of planted bugs in DESIGN.md and the count of repaired defects."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["property"]))
d = open(os.path.join(V, "DESIGN.md")).read()
d = re.sub(r"\| bug \| property.*?\n\n", lambda m: "\n".join(rows) + "\n\n", d, flags=re.S)
n = sum(l.startswith("fixed:") for l in open(os.path.join(V, "known_findings.txt")))
d = re.sub(r"`fixed:`\): \d+ defects", "`fixed:`): %d defects" % n, d)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
