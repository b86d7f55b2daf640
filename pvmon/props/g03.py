"""G03 CDaR: optimality and reports, recomputed from the data."""

from .g02 import *

BUDGET = {"quick": {"min": 860, "ret": 640, "risk": 860, "nomu": 270, "extra": 400, "resolve": 210, "custom": 210},
          "thorough": {"min": 17200, "ret": 12800, "risk": 17200, "nomu": 5400, "extra": 5400, "resolve": 4200, "custom": 4200}}
RULE = ("Each case draws a return panel, confidence level, bounds, constraints and market neutrality, solves with the real "
        "optimiser, compares the drawdown-at-risk of the returned weights (running peak of the uncompounded cumulative return "
        "including the start, fractional-tail average) with an independently posed reference, and the reported return and CDaR "
        "with the values recomputed from weights and data.")
KIND, KEY = "cdar", "cdar-report-not-empirical"


def run_case(ctx):
    run(ctx, KIND, KEY)
