"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        lev, note = LEVELS.get(i, ("exploration", "randomised runs observed by monitors"))
        checks.append(dict(property=i, quick_cmd="./vrun " + i, thorough_cmd="env VERIF_TIER=thorough ./vrun " + i, evidence_file="evidence/%s.json" % i,
                           technique="runtime monitoring and sanitizers", level=lev, level_note=note))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=NOT_APPLICABLE, notes="every check rebuilds or re-imports the code from /repo; see DESIGN.md")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
