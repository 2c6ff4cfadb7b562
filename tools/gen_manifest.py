#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has a driver is claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMC = "stateless model checking of the real code: exhaustive enumeration of bounded choice sequences"
EXH = "exhaustive bounded exploration of the real code (explicit enumeration of inputs and settings) against an independent oracle"
HIST = "stateless model checking: all operation histories up to a depth on the real code against a reference model"
ENV = "stateless model checking: all environment answer sequences (plugged-in loss/penalty) up to a bound, monitor automaton on every call"
T = {  # id: (technique, level, note)
 "P01": (EXH, "exploration", "Holds for every enumerated design, target, penalty and setting; oracle recomputes the KKT violation on dense f64 data."),
 "P02": (EXH, "exploration", "As P01 with the limiting subdifferential of MCP; restricted to curvature x gamma > 1."),
 "P03": (EXH, "exploration", "As P01 for the logistic loss; coercive problems only."),
 "P04": (EXH, "exploration", "Fixed point of the exact L0.5 prox, recomputed by the oracle."),
 "P05": (SMC + "; every truncation of every run is a state", "model_checking", "Every budget up to the bound on every enumerated problem; states are iterates of the real solver."),
 "P06": (EXH, "exploration", "Full product of working-set size x depth x acceleration per problem, against a reference setting that is itself KKT-checked."),
 "P07": (EXH, "exploration", "All small matrices x all representations (row orders, stored zeros); exact or rounding-level comparison with dense."),
 "P08": (EXH, "exploration", "All layouts x ownership kinds; comparison with the row-major owned result."),
 "P09": (EXH, "exploration", "All grid points around every threshold; compared with the closed-form or bisected global minimum."),
 "P10": (EXH, "exploration", "All small coefficient vectors/matrices over an alphabet with every breakpoint; documented formula as oracle."),
 "P11": (EXH, "exploration", "All coefficients x gradients x ordered selections over the alphabet; subdifferential distance as oracle."),
 "P12": (EXH, "exploration", "All small designs/targets/coefficients; exact formulas and finite differences of the reported value as oracle."),
 "P13": (EXH, "exploration", "All small integer designs; fits straddling the reported threshold."),
 "P14": (HIST, "model_checking", "All setter sequences up to the depth on the six builders against a last-write-wins model."),
 "P15": (ENV, "model_checking", "All budgets up to the bound; coordinate updates counted through instrumented losses and penalties wrapping the real ones."),
 "P16": (EXH, "exploration", "All degenerate shapes/contents x settings; result finite, shaped, no panic, no hang."),
 "P17": (EXH, "exploration", "All six estimators x storages x settings incl. truncating budgets, coefficients compared with the generic solver."),
 "P18": (EXH, "exploration", "All small datasets and settings; T=1 against the single-task API, also per truncation."),
 "P19": (EXH, "exploration", "All group elements (permutations, sign patterns) of the enumerated problems."),
 "P20": (HIST, "model_checking", "All operation sequences up to the depth over a pool of datasets and shared objects, bit-compared with fresh objects."),
 "P21": (ENV, "model_checking", "All environment answer sequences up to the bound; every argument the solver passes is checked by a monitor."),
 "P22": (ENV, "model_checking", "All violation vectors (ties, infinities) x supports x start sizes; plus the cycled features of every enumerated solve."),
 "P23": (ENV, "model_checking", "All short iterate histories x all objective answers (ties, NaN, infinities) on the public acceleration step."),
 "P24": (EXH, "exploration", "All integer systems and arrays up to the bound; exact rational oracle."),
 "P25": (HIST, "model_checking", "All update histories up to the depth on all small matrices; exact integer arithmetic as model."),
 "P26": (EXH, "exploration", "The other checks' spaces in single precision against double precision."),
 "P27": (EXH + " (through the Python extension)", "exploration", "All containers x dtypes x layouts x estimators x refit histories over the enumerated datasets; numpy KKT oracle."),
 "P28": (EXH + " (through the Python extension)", "exploration", "All single and pairwise hyperparameter combinations and data faults."),
 "P29": (HIST + " (through the Python extension)", "model_checking", "All fit/predict histories up to the depth against a recorded-coefficients model."),
 "P31": ("stateless model checking of the real code: all interleavings of fits at their callbacks up to a preemption bound under a controlled scheduler, and all nestings", "model_checking", "Every hand-over at a callback up to the bound is enumerated; results bit-compared with the fits alone. Small fits also hand over at every arithmetic operation (a scalar type of the harness under the generic code)."),
 "P30": (EXH + " (through the Python package)", "exploration", "Full grid of generator arguments and seeds."),
}
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if os.path.exists(f"{ROOT}/harness/src/bin/{pid.lower()}.rs") or os.path.exists(f"{ROOT}/pychecks/{pid}.py"):
        t, lv, note = T[pid]
        checks.append({"property": pid, "quick_cmd": f"./check.sh {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
                       "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything the checks need is public. Each check rebuilds /repo's working tree into /verif/build. Known findings and fixes: KNOWN_FINDINGS.md."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
