#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and the monitors that exist"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime oracle: dense numpy shadow of every tensor operation",
    "C02": "runtime oracle: dense numpy shadow of reductions and axis operations",
    "C03": "runtime oracle: einsum shadow of tensor contractions",
    "C04": "runtime monitor: digests and writability of all operands around every API call",
    "C05": "runtime oracle: independent evaluation of random expression trees",
    "C06": "runtime oracle: complex-step derivatives of independent formulas",
    "C07": "runtime oracle: differences of exact gradients of independent formulas",
    "C08": "runtime differential monitor: one-pass vs separate evaluation",
    "C09": "runtime oracle: scipy distributions",
    "C10": "runtime oracle: step-by-step chain and conservation monitors",
    "C11": "runtime oracle: enumeration of the scoring rules",
    "C12": "runtime oracle: cell by cell evaluation of the conditions",
    "C13": "runtime oracle: margins, cumulative copula formulas, inclusion-exclusion",
    "C14": "runtime oracle: scipy distributions and wide-window sums",
    "C15": "runtime monitor: inversion oracle with work and memory counters",
    "C16": "runtime oracle: scipy log-probabilities of the individual observations",
    "C17": "runtime oracle: complex-step scores of independent objectives",
    "C18": "runtime oracle: KKT monitor and independent constrained optimiser",
    "C19": "runtime monitor: bitwise fixed entries, layout of parameters and blocks",
    "C20": "runtime fault injection with state snapshots before/after",
    "C21": "runtime oracle: inverse of the independent bordered information",
    "C22": "runtime oracle: definition of the criteria on independent objectives",
    "C23": "runtime metamorphic monitor: transformed problems",
    "C24": "runtime oracle: direct grouping of the rows",
    "C25": "runtime oracle: direct grouping of the rows",
    "C26": "runtime oracle: row by row indicators",
    "C27": "runtime history and thread-schedule monitor vs isolated runs",
}
NOTE = ("Exploration: the real code runs on seeded random workloads and every observed result "
        "is judged by an independent reference; nothing is proved beyond the cases executed. "
        "Trusted: numpy, scipy, pandas and the references in /verif/mon.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "mon", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd="python3 run_check.py %s --tier quick" % i,
            thorough_cmd="VERIF_TIER=thorough python3 run_check.py %s --tier thorough" % i,
            technique=TECH[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="the monitor of this property is not built yet"))
m = dict(version=1,
         setup_cmd="python3 -c \"import json; json.load(open('MANIFEST.json'))\" && "
                   "/opt/venv/bin/python -c 'import numpy, scipy, pandas, six'",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors observe the public interface, and wrap "
               "functions at run time where they have to look inside.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
