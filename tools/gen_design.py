"""Writes DESIGN.md from tools/design.tmpl and the planted bugs."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AFTER = {
    "p21-tiny-steps": "after: data in other units", "p09-power-constant": "after: tolerances relative to the magnitude",
    "p20-logistic-cache": "after: sibling datasets", "p20-mt-cache": "after: integer siblings with equal correlations",
    "p12-task-spill": "after: up to 130 tasks", "p25-u16-rows": "after: 70001 rows", "p22-screened": "after: 5000 and 70001 features",
    "p02-denominator-guard": "after: data in other units",
    "p11-tiny-row": "after: weights of 2^-60", "p26-eps-floor": "after: 200x60 and 700x12 designs", "p30-reshape-in-place": "after: shape and strides of the supplied array compared",
    "p04-far-shortcut": "after: strengths down to 1e-5 of the critical one", "p21-skip-null-gradient": "after: whole epochs demanded, null derivatives everywhere",
}
try: AFTER.update(json.load(open(f"{root}/tools/after.json")))
except FileNotFoundError: pass
rows = ["| bug | needs | caught by | |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {m['property']} | {AFTER.get(d, '')} |")
t = open(f"{root}/tools/design.tmpl").read().replace("SEEDTABLE", "\n".join(rows))
open(f"{root}/DESIGN.md", "w").write(t)
