"""O01 Critical-line solutions: minimum volatility and maximum Sharpe ratio against verified-feasible
challengers from separately posed convex problems, and against the library's convex optimiser."""

from .common import *
from .m03 import dinkelbach

BUDGET = {"quick": {"minvol": 1450, "sharpe": 1450, "agree": 290, "history": 290},
          "thorough": {"minvol": 29000, "sharpe": 29000, "agree": 5800, "history": 5800}}
RULE = ("Each case draws distinct expected returns, a positive-definite covariance matrix and bounds in varied notations strictly "
        "containing a fully-invested portfolio, runs the critical-line optimiser and compares volatility or Sharpe ratio with "
        "verified-feasible portfolios of an independent convex program (Dinkelbach iteration for the ratio).")
MIN = {"chk:cla-min-vol": 100, "chk:cla-max-sharpe": 100, "chk:agree-vol": 15}
ASSUMES = ["expected returns distinct and covariance positive definite (as the property states)",
           "a positive-return portfolio exists for the Sharpe ratio to be maximised"]


def draw(ctx, positive=False, lo=2, hi=12, units=True):
    rng = ctx.rng
    n = gen.size(rng, lo, hi, 0.1)
    S, ck = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "diag", "block", "equicorr"])))
    S = S + np.diag(rng.uniform(1e-4, 1e-3, n))
    mu, mk = gen.means(rng, n, str(rng.choice(["normal", "wide", "negative", "close"], p=[0.6, 0.2, 0.1, 0.1])))
    while len(np.unique(np.round(mu, 7))) < n:
        mu = mu + rng.normal(0, 1e-4, n)
    tk, tkd = gen.tickers(rng, n)
    for _ in range(30):
        arg, lb, ub, a, bk = gen.bounds(rng, n, 1.0, kind=str(rng.choice(
            ["default", "ls", "pair_narrow", "pair_wide", "pair_lev", "list", "nd", "arrays", "arrays_list"])))
        if positive and ref.lp_max(mu, lb, ub)[0] < 0.01:
            mu = np.abs(mu) + 0.01 * np.arange(1, n + 1)
            continue
        if lb.sum() < 1 - 1e-6 and ub.sum() > 1 + 1e-6:
            break
    else:
        raise Skip("no usable bounds")
    if bk == "nd" and n == 2:
        arg = [tuple(map(float, r)) for r in arg]
    P = gen.Problem.__new__(gen.Problem)
    P.rng, P.n, P.neutral, P.total = rng, n, False, 1.0
    P.S, P.mu, P.lb, P.ub, P.a, P.bkind = S, mu, lb, ub, a, bk
    P.cons, P.sec, P.objs, P.solver = [], None, [], "CLARABEL"
    # the library may be given other units (daily, percent): the weights do not depend on them
    P.um, P.us = (float(10.0 ** rng.uniform(-5, 2)), float(10.0 ** rng.uniform(-7, 4))) if units and rng.random() < 0.3 else (1.0, 1.0)
    P.arg_mu, P.mform = gen.as_mu(rng, mu * P.um, tk, str(rng.choice(["series", "array", "list"], p=[0.7, 0.2, 0.1])))
    P.arg_cov, P.cform = gen.as_cov(rng, S * P.us, tk)
    P.tk, P.tkind = (tk, tkd) if P.mform == "series" else (list(range(n)), "range")
    P.ckind, P.mkind, P.arg_bounds, P.R = ck, mk, arg, None
    ctx.note(n=n, mu=mk, cov=ck, bounds=bk, weight_bounds=repr(arg)[:300], units=(P.um, P.us))
    return P


def cla_of(P):
    from pypfopt import CLA

    return CLA(P.arg_mu, P.arg_cov, weight_bounds=P.arg_bounds)


def weights(ctx, P, r):
    ctx.check(list(r) == list(P.tk), "labels", "labels %r, not %r" % (list(r)[:6], list(P.tk)[:6]))
    w = P.port(r)
    v = P.violation(w)
    ctx.check(v <= 1e-7 * max(1, np.abs(w).sum()), "cla-feasible", "bound or budget violated by %.3g" % v, w=w, lb=P.lb, ub=P.ub)
    return w


def judge_minvol(ctx, P, w):
    x = cp.Variable(P.n)
    L = ref.psd_root(P.S)
    c = ref_solve(P, cp.sum_squares(L @ x), P.ref_cons(x), x)
    best, bw = best_of(P, lambda u: ref.variance(u, P.S), [c, P.a])
    v = ref.variance(w, P.S)
    rel = (v - best) / max(best, 1e-9)
    ctx.info["relgap"] = rel
    ctx.event("minvol", variance=v, challenger=best)
    ctx.check(rel <= 2e-6, "cla-min-vol", "variance %.12g but a feasible portfolio has %.12g" % (v, best),
              mu=P.mu, cov=P.S, lb=P.lb, ub=P.ub, w=w, better=bw)


def judge_sharpe(ctx, P, w):
    f = lambda u: ref.vol(u, P.S) / float(u @ P.mu) if float(u @ P.mu) > 1e-9 else np.inf
    P.a0 = P.a
    top = ref.lp_max(P.mu, P.lb, P.ub)[1]
    if P.a @ P.mu < 0.005:
        P.a = top
    best, bw = best_of(P, f, dinkelbach(P, P.mu, ref.psd_root(P.S)) + [top])
    P.a = P.a0
    if not np.isfinite(best):
        raise Skip("no verified challenger")
    rel = (f(w) - best) / best
    ctx.info["relgap"] = rel
    ctx.event("sharpe", inverse=f(w), challenger=best)
    ctx.check(rel <= 2e-6, "cla-max-sharpe", "Sharpe ratio %.10g but a feasible portfolio has %.10g" % (1 / f(w), 1 / best),
              mu=P.mu, cov=P.S, lb=P.lb, ub=P.ub, w=w, better=bw)


def run_case(ctx):
    rng = ctx.rng
    if ctx.kind == "minvol":
        P = draw(ctx)
        judge_minvol(ctx, P, weights(ctx, P, cla_of(P).min_volatility()))
    elif ctx.kind == "sharpe":
        P = draw(ctx, positive=True)
        judge_sharpe(ctx, P, weights(ctx, P, cla_of(P).max_sharpe()))
    elif ctx.kind == "history":
        # any order of calls on one object
        P = draw(ctx, positive=True)
        o = cla_of(P)
        for m in rng.choice(["min", "sharpe", "frontier"], int(rng.integers(2, 5))):
            if m == "min":
                judge_minvol(ctx, P, weights(ctx, P, o.min_volatility()))
            elif m == "sharpe":
                judge_sharpe(ctx, P, weights(ctx, P, o.max_sharpe()))
            else:
                w = None if o.weights is None else np.array(o.weights)
                o.efficient_frontier(points=int(rng.integers(30, 80)) * 4)
                ctx.check((w is None and o.weights is None) or np.array_equal(w, o.weights), "frontier-keeps-weights")
        ctx.sig("hist")
    else:
        P = draw(ctx, positive=True, hi=9, units=False)
        from pypfopt import EfficientFrontier

        o = cla_of(P)
        r = o.min_volatility()
        pc = o.portfolio_performance()
        e = EfficientFrontier(P.arg_mu, P.arg_cov, weight_bounds=P.arg_bounds, solver="CLARABEL")
        q, err = attempt(e.min_volatility)
        if err:
            raise Skip("convex optimiser refused")
        pe = e.portfolio_performance()
        ctx.close(pc[1], pe[1], "agree-vol", rtol=1e-4, atol=1e-7)
        mx = float(P.mu.max())
        if mx > 0.01:
            o.max_sharpe()
            pc = o.portfolio_performance()
            e = EfficientFrontier(P.arg_mu, P.arg_cov, weight_bounds=P.arg_bounds, solver="CLARABEL")
            q, err = attempt(e.max_sharpe)
            if err is None and ref.lp_max(P.mu, P.lb, P.ub)[0] > 0.02:
                pe = e.portfolio_performance()
                ctx.check(abs(pc[2] - pe[2]) <= 2e-3 * max(abs(pc[2]), 0.05), "agree-sharpe", "%r, convex optimiser %r" % (pc, pe))
    ctx.sig(ctx.kind, P.n, P.bkind, P.ckind, P.mkind, P.us < 1e-3)
