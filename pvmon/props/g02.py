"""G02 CVaR: optimality and reports, recomputed from the data."""

from .risklib import *

BUDGET = {"quick": {"min": 950, "ret": 760, "risk": 950, "nomu": 280, "extra": 420, "resolve": 280, "custom": 380},
          "thorough": {"min": 19000, "ret": 15200, "risk": 19000, "nomu": 5600, "extra": 5600, "resolve": 5600, "custom": 7600}}
RULE = ("Each case draws a return panel, confidence level, bounds, constraints and market neutrality, solves with the real "
        "optimiser, compares the sort-based fractional-tail CVaR of the returned weights with an independently posed reference, "
        "and the reported return and CVaR with the values recomputed from weights and data.")
MIN = {"chk:optimal": 100, "chk:report-risk": 100}
ASSUMES = ["CLARABEL solves the reference problem (only verified-feasible reference points are used)"]
KIND, KEY = "cvar", "cvar-report-not-empirical"


def report(ctx, Q, o, w, method, t, status, key):
    rep = o.portfolio_performance() if ctx.rng.random() < 0.8 else o.portfolio_performance(verbose=True)
    ok = isinstance(rep, tuple) and len(rep) == 2
    if not ctx.check(ok, "report-shape", repr(rep)[:200]):
        return
    P = Q.P
    true = Q.risk(w)
    g = max(1.0, np.abs(w).sum())
    ctx.event("report", values=rep, empirical=true, target=t)
    if P.arg_mu is None:
        ctx.check(rep[0] is None, "report-none", repr(rep))
    else:
        ctx.close(rep[0], float(w @ P.mu), "report-return", rtol=1e-9, atol=1e-11 * g)
    tol = 2e-5 * max(abs(true), 0.05) * g * (1 if status == "optimal" else 100)
    got = float(rep[1])
    if abs(got - true) <= tol:
        ctx.check(True, "report-risk")
        ctx.count("report_exact")
        return
    if method == "risk" and true < t - tol and true - tol <= got <= t + tol:
        ctx.known_finding(key, "reported %.6g, empirical %.6g, target %.6g not binding" % (got, true, t))
        ctx.count("report_auxiliary")
        return
    ctx.check(False, "report-risk", "reported %.8g, recomputed %.8g (%s, target %r)" % (got, true, method, t),
              problem=Q.describe(), w=w)


def run(ctx, kind, key):
    rng = ctx.rng
    k = ctx.kind
    if k == "resolve":
        # one object, several targets: the report follows the last successful solve
        Q = Panel(ctx, kind, no_mu=False)
        o, w, t, st = solve_and_check(ctx, Q, "risk")
        report(ctx, Q, o, w, "risk", t, st, key)
        for _ in range(2):
            t2 = t * float(rng.choice([0.5, 0.9, 1.2, 2.0]))
            kw = dict(market_neutral=True) if Q.neutral else {}
            r, err = attempt(lambda: o.efficient_risk(t2, **kw))
            if err is None:
                w, t, st = Q.P.port(r), t2, ST.status
                ctx.check(Q.risk(w) <= t + 2e-5 * max(1, np.abs(w).sum()), "target-met", "re-solve target %.6g, risk %.6g" % (t, Q.risk(w)))
            else:
                ctx.count("failed_resolve")
            report(ctx, Q, o, w, "risk", t, st, key)
        return
    if k == "custom":
        return custom(ctx, Q=Panel(ctx, kind, no_mu=rng.random() < 0.3), key=key)
    method = {"nomu": "min"}.get(k, k)
    nobj = 0
    if k == "extra":
        method, nobj = str(rng.choice(["min", "ret", "risk"])), int(rng.integers(1, 4))
    Q = Panel(ctx, kind, nobj=nobj, no_mu=(k == "nomu"))
    o, w, t, st = solve_and_check(ctx, Q, method)
    report(ctx, Q, o, w, method, t, st, key)


def custom(ctx, Q, key):
    """Portfolios of custom objectives (which do not involve the risk measure), on a new optimiser, on a copy of one that
    solved another problem, and after another optimisation."""
    rng, P = ctx.rng, Q.P
    make, nm = Q.make, SPEC[Q.kind]["minimise"]
    kw = dict(market_neutral=True) if Q.neutral else {}
    o = make()
    how = str(rng.choice(["new", "copy", "after"]))
    if how == "copy":
        o2 = o.deepcopy()
        attempt(lambda: getattr(o, nm)(**kw))
        o = o2 if rng.random() < 0.7 else o
    elif how == "after":
        attempt(lambda: getattr(o, nm)(**kw))
    one = not Q.neutral
    if how != "after" and o.weights is None and rng.random() < 0.6:
        r, err = attempt(lambda: o.convex_objective(lambda w: cp.sum_squares(w), weights_sum_to_one=one))
    else:
        w0 = np.array(P.a)
        r, err = attempt(lambda: o.nonconvex_objective(lambda w: float(((w - 0.1) ** 2).sum()), weights_sum_to_one=one,
                                                       initial_guess=w0, objective_args=()))
    ctx.note(how=how, problem=Q.describe())
    if err is not None:
        raise Skip("custom objective not solved: %s" % err)
    w = P.port(r)
    report(ctx, Q, o, w, "custom", None, "optimal", key)
    ctx.sig("custom", how, *Q.sig())


def run_case(ctx):
    run(ctx, KIND, KEY)
