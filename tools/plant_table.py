"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and results.json (check -> seen)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(ROOT, "tools", "plant_results.json")))
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    r = res.get(d, {})
    rows.append((m["property"], d, m["needs"], r.get("seen", "not run"), r.get("note", "")))
rows.sort()
t = "| property | planted bug | needs | seen by | note |\n|---|---|---|---|---|\n" + "".join("| " + " | ".join(r) + " |\n" for r in rows)
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- plants -->\n", "<!-- /plants -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
