"""Print the planted bugs as a table (for DESIGN.md)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"]))
print("| property | planted bug | manifests with |\n|---|---|---|")
for p, d, n in sorted(rows):
    print(f"| {p} | {d} | {n} |")
