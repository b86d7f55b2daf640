#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the modules present in pvmon/props."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "M": "Bounded exploration: seeded random problems solved by the real code; oracle = independent feasibility/optimality/definition monitors. One-sided optimality (only verified-feasible better portfolios raise an alarm). Trusts CLARABEL/HiGHS as providers of challenger portfolios, NumPy linear algebra, CVXPY canonicalisation of the reference problem.",
    "G": "Bounded exploration on random return panels; risk measures recomputed by sorting/cumsum, one-sided optimality against verified-feasible challengers. Trusts CLARABEL for challengers.",
    "P": "Bounded exploration: every report observed is recomputed in closed form.",
    "O": "Bounded exploration; KKT/active-set and brute-force oracles on returned portfolios.",
    "B": "Bounded exploration; closed-form posterior computed independently in two algebraic forms.",
    "D": "Bounded exploration; accounting invariants online, optimal value compared with independent MILP/brute force.",
    "R": "Bounded exploration; definitions recomputed independently from data.",
    "E": "Bounded exploration; definitions recomputed independently from data.",
    "S": "Bounded exploration of call histories and injected solver faults; differential oracle = fresh object / isolated copy.",
    "L": "Metamorphic monitors (permutation, renaming) on the real code.",
    "I": "Bounded exploration of argument containers and illegal values; differential and refusal oracles.",
    "V": "Inspection of the produced matplotlib artists against independent recomputation.",
    "X": "Bounded exploration; solver requests compared with records taken at the modelling layer's solver interfaces.",
}
TECH = {
    "S02": "runtime monitoring with fault injection at the solver boundary",
    "S03": "runtime monitoring: input digests over random API sessions, isolated-replay oracle",
}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "pvmon", "props", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="./check %s --tier quick" % p, thorough_cmd="./check %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p,
                           technique=TECH.get(p, "runtime monitoring: API-boundary monitors and independent oracles over randomised workloads"),
                           level="exploration", level_note=NOTE[p[0]]))
    else:
        na.append(dict(property=p, reason="monitor not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas, scipy, cvxpy, matplotlib' && mkdir -p evidence replays",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: instrumentation is installed from the harness (pvmon/hooks.py) around the public API.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "unclaimed")
