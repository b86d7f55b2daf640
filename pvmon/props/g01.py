"""G01 Semivariance: optimality and reports, recomputed from the data."""

from .risklib import *

BUDGET = {"quick": {"min": 850, "ret": 850, "risk": 850, "util": 850, "nomu": 280, "extra": 280, "report": 570},
          "thorough": {"min": 17000, "ret": 17000, "risk": 17000, "util": 17000, "nomu": 5600, "extra": 5600, "report": 11400}}
RULE = ("Each case draws a return panel (heavy tails, skew, crash, missing rows), benchmark, frequency, bounds, constraints and "
        "market neutrality, solves with the real optimiser, compares the textbook semideviation of the returned weights with an "
        "independently posed reference and the report with the values recomputed from the weights and data.")
MIN = {"chk:optimal": 100, "chk:report-semidev": 100}
ASSUMES = ["CLARABEL solves the reference problem (only verified-feasible reference points are used)"]


def report(ctx, Q, o, w):
    rng = ctx.rng
    rf = float(rng.choice([0.0, 0.02, -0.01]))
    rep = o.portfolio_performance(risk_free_rate=rf) if rng.random() < 0.8 else o.portfolio_performance(True, rf)
    ok = isinstance(rep, tuple) and len(rep) == 3
    if not ctx.check(ok, "report-shape", repr(rep)[:200]):
        return
    ctx.event("report", values=rep)
    sd = Q.risk(w)
    P = Q.P
    g = max(1.0, np.abs(w).sum())
    ctx.close(rep[1], sd, "report-semidev", rtol=1e-7, atol=1e-12)
    if P.arg_mu is None:
        ctx.check(rep[0] is None and rep[2] is None, "report-none", repr(rep))
        return
    m = float(w @ P.mu)
    ctx.close(rep[0], m, "report-return", rtol=1e-9, atol=1e-11 * g)
    if sd > 1e-6:
        ctx.close(rep[2], (m - rf) / sd, "report-sortino", rtol=1e-6, atol=1e-8, rf=rf)


def run_case(ctx):
    rng = ctx.rng
    k = ctx.kind
    if k == "report":
        # reports of arbitrary weights
        Q = Panel(ctx, "semi", neutral=False, ncons=0)
        o = Q.make()
        w = gen.anchor(rng, Q.P.n, 1.0, rng.random() < 0.5) * float(rng.choice([1, 1, 0.5]))
        items = list(zip(Q.P.tk, w))
        o.set_weights(dict(items[int(i)] for i in rng.permutation(len(items))))
        ctx.note(problem=Q.describe())
        report(ctx, Q, o, w)
        ctx.sig("report", *Q.sig())
        return
    if k == "nomu":
        Q = Panel(ctx, "semi", no_mu=True)
        o, w, t, st = solve_and_check(ctx, Q, "min")
    elif k == "extra":  # additional terms compete with the return
        Q = Panel(ctx, "semi", nobj=int(rng.integers(1, 4)))
        o, w, t, st = solve_and_check(ctx, Q, "risk")
    else:
        Q = Panel(ctx, "semi")
        o, w, t, st = solve_and_check(ctx, Q, k)
    report(ctx, Q, o, w)
