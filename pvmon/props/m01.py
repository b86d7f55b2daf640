"""M01 Returned portfolios are feasible: broad workload over every optimiser; the decision is
made by the universal feasibility monitor (hooks.monitor_feasible) at each return, plus an
independent numeric evaluation of each constraint in canonical form."""

from .common import *

BUDGET = {"quick": {"mv": 3770, "semi": 750, "cvar": 1010, "cdar": 750, "cla": 1260, "history": 750},
          "thorough": {"mv": 75400, "semi": 15000, "cvar": 20200, "cdar": 15000, "cla": 25200, "history": 15000}}
RULE = ("Each case draws a universe (covariance structure, label kind, input container), a bound notation, constraints "
        "written in varied syntactic forms, sector limits and objectives around a feasible anchor portfolio, runs one "
        "optimisation method on the real optimiser and lets the feasibility monitor judge every portfolio returned.")
MIN = {"chk:feasible": 100}
ASSUMES = ["cvxpy expression evaluation", "solver tolerance 3e-6 (interior point) / 3e-3 (OSQP) scaled by gross exposure"]


def target(rng, P, m):
    pa = P.a
    return pa


def run_mv(ctx, neutral=None):
    rng = ctx.rng
    method = str(rng.choice(["min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk", "efficient_return",
                             "convex_objective"]))
    neutral = method in ("max_quadratic_utility", "efficient_risk", "efficient_return") and rng.random() < 0.25
    P = gen.Problem(rng, neutral=neutral, nobj=int(rng.choice([0, 1], p=[0.75, 0.25])) if method != "max_sharpe" else 0,
                    convex=True)
    ctx.note(method=method, problem=P.describe())
    if method == "max_sharpe":
        rf = 0.0
        if P.a @ P.mu <= 0.005:
            rf = float(P.a @ P.mu - 0.02)
        o, r = solve(ctx, P, P.ef, lambda e: e.max_sharpe(risk_free_rate=rf), what=method)
    elif method == "min_volatility":
        o, r = solve(ctx, P, P.ef, lambda e: e.min_volatility(), what=method)
    elif method == "max_quadratic_utility":
        d = float(rng.choice([0.5, 1, 5]))
        o, r = solve(ctx, P, P.ef, lambda e: e.max_quadratic_utility(risk_aversion=d, market_neutral=neutral), what=method)
    elif method == "efficient_risk":
        t = float(np.sqrt(P.a @ P.S @ P.a) * 1.02 + 1e-3)
        o, r = solve(ctx, P, P.ef, lambda e: e.efficient_risk(t, market_neutral=neutral), what=method)
    elif method == "efficient_return":
        t = float(P.a @ P.mu - 1e-3)
        o, r = solve(ctx, P, P.ef, lambda e: e.efficient_return(t, market_neutral=neutral), what=method)
    else:
        o, r = solve(ctx, P, P.ef, lambda e: e.convex_objective(lambda w: cp.sum_squares(w - 0.1)), what=method)
    own(ctx, P, r, ST.status)
    ctx.sig(method, *P.signature())


def own(ctx, P, r, status):
    """Second opinion: canonical numeric constraints."""
    if set(r) != set(P.tk):
        ctx.check(False, "labels", "labels %r instead of %r" % (list(r)[:5], P.tk[:5]))
        return
    w = P.port(r)
    tol = hooks.tol_now() * 4 * max(1.0, np.abs(w).sum())
    if P.neutral and not np.any(P.lb < 0):
        return
    v = P.violation(w)
    ctx.check(v <= tol, "canonical-violation", "constraint violated by %.3g" % v, problem=P.describe(), w=w)
    ctx.event("portfolio", violation=v)


def run_risk(ctx, kind):
    from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance

    rng = ctx.rng
    cls = {"semi": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}[kind]
    neutral = rng.random() < 0.2
    P = gen.Problem(rng, neutral=neutral, returns=True, T=int(rng.choice([25, 40, 60])), hi=7, solver="CLARABEL",
                    nobj=int(rng.choice([0, 1], p=[0.8, 0.2])))
    meths = {"semi": ["min_semivariance", "max_quadratic_utility", "efficient_risk", "efficient_return"],
             "cvar": ["min_cvar", "efficient_risk", "efficient_return"],
             "cdar": ["min_cdar", "efficient_risk", "efficient_return"]}[kind]
    method = str(rng.choice(meths))
    ctx.note(method=method, problem=P.describe())
    make = lambda: P.make(cls, P.arg_mu, P.R if P.mform == "series" or rng.random() < 0.7 else P.R.to_numpy())
    kw = dict(market_neutral=neutral)
    if method == "efficient_return":
        t = float(P.a @ P.mu) - 1e-3
        if t <= 0:
            method = meths[0]
    if method == "efficient_risk":
        t = {"semi": ref.semidev(P.a, P.R.to_numpy(), 0.0), "cvar": ref.cvar(P.a, P.R.to_numpy(), 0.95),
             "cdar": ref.cdar(P.a, P.R.to_numpy(), 0.95)}[kind]
        t = float(t * 1.02 + 1e-3)
        if t <= 0:
            method = meths[0]
    if method == meths[0] or method == "max_quadratic_utility":
        o, r = solve(ctx, P, make, lambda e: getattr(e, method)(**kw), what=method)
    elif method == "efficient_risk":
        o, r = solve(ctx, P, make, lambda e: e.efficient_risk(t, **kw), what=method)
    else:
        o, r = solve(ctx, P, make, lambda e: e.efficient_return(t, **kw), what=method)
    own(ctx, P, r, ST.status)
    ctx.sig(kind, method, *P.signature())


def run_cla(ctx):
    from pypfopt import CLA

    rng = ctx.rng
    n = gen.size(rng, 1, 12)
    S, ck = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "diag", "block"])))
    mu, mk = gen.means(rng, n)
    tk, tkd = gen.tickers(rng, n)
    arg, lb, ub, a, bk = gen.bounds(rng, n, 1.0, str(rng.choice(["default", "ls", "pair_narrow", "pair_wide", "list"])))
    am, mf = gen.as_mu(rng, mu, tk)
    ac, cf = gen.as_cov(rng, S, tk)
    if mf == "column":
        am, mf = np.array(mu), "array"
    o = CLA(am, ac, weight_bounds=arg)
    m = str(rng.choice(["min_volatility", "max_sharpe"]))
    if m == "max_sharpe" and (mu @ a) <= 0.01:
        m = "min_volatility"
    r = getattr(o, m)()
    ctx.note(method="CLA." + m, n=n, bounds=bk, mu=mf, cov=cf)
    ctx.sig("cla", m, n, bk, mf, cf, tkd)


def run_history(ctx):
    """Several portfolios from one object: every one returned is judged."""
    rng = ctx.rng
    neutral = rng.random() < 0.3
    P = gen.Problem(rng, neutral=neutral, solver="CLARABEL")
    o = P.ef()
    m = str(rng.choice(["efficient_risk", "efficient_return", "max_quadratic_utility"]))
    ctx.note(method=m, problem=P.describe())
    va, ra = float(np.sqrt(P.a @ P.S @ P.a)), float(P.a @ P.mu)
    got = 0
    for i in range(int(rng.integers(2, 6))):
        if m == "efficient_risk":
            t = va * float(rng.uniform(0.6, 1.6)) + 1e-4
            r, e = attempt(lambda: o.efficient_risk(t, market_neutral=neutral))
        elif m == "efficient_return":
            t = ra + float(rng.normal(0, 0.1))
            r, e = attempt(lambda: o.efficient_return(t, market_neutral=neutral))
        else:
            t = float(rng.choice([0.1, 1, 3, 10]))
            r, e = attempt(lambda: o.max_quadratic_utility(t, market_neutral=neutral))
        if r is not None:
            got += 1
            own(ctx, P, r, ST.status)
            try:
                P_w = P.port(r)
                ctx.check(dict(zip(P.tk, P_w)) == dict(r), "labels")
            except KeyError:
                pass
    ctx.sig("history", m, got, *P.signature())


def run_case(ctx):
    k = ctx.kind
    if k == "mv":
        run_mv(ctx)
    elif k == "cla":
        run_cla(ctx)
    elif k == "history":
        run_history(ctx)
    else:
        run_risk(ctx, k)
