"""O02 Critical-line frontier: every returned point re-evaluated and challenged."""

from .common import *
from .o01 import cla_of, draw

BUDGET = {"quick": {"points": 1110, "dense": 103},
          "thorough": {"points": 22200, "dense": 2100}}
RULE = ("Each case computes the whole critical-line frontier of a random universe with varied bounds and number of points; every "
        "point's return and risk are recomputed from its weights, the sequence is checked for order and for its end points, and a "
        "sample of points (all ends included) is challenged by an independent convex program minimising variance at that return.")
MIN = {"chk:front-report-ret": 100, "chk:front-efficient": 200}
ASSUMES = ["expected returns distinct and covariance positive definite"]


def run_case(ctx):
    rng = ctx.rng
    P = draw(ctx, lo=2, hi=10 if ctx.kind == "points" else 6)
    o = cla_of(P)
    hist = str(rng.choice(["fresh", "after_min", "twice"]))
    if hist == "after_min":
        o.min_volatility()
    kw = {} if rng.random() < 0.4 else dict(points=int(rng.integers(2, 150)))
    if ctx.kind == "dense":
        kw = dict(points=int(rng.integers(300, 800)))
    if hist == "twice":
        o.efficient_frontier(points=200)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mu, sig, W = o.efficient_frontier(**kw)
    ctx.check(len(mu) == len(sig) == len(W) and len(W) >= 2, "front-shape", (len(mu), len(sig), len(W)))
    ctx.check(o.frontier_values is not None and o.frontier_values[0] == mu, "front-stored")
    if kw:
        k, p = len(W), kw["points"]
        ctx.check(p / 8 <= k <= 2 * max(p, 2 * len(o.w)), "front-count", "%d points for points=%d" % (k, p))
    W = np.array([np.asarray(w, float).ravel() for w in W])
    mu, sig = np.asarray(mu, float).ravel() / P.um, np.asarray(sig, float).ravel() / P.us ** 0.5
    g = max(1.0, float(np.abs(W).sum(axis=1).max()))
    ctx.close(mu, W @ P.mu, "front-report-ret", rtol=1e-9, atol=1e-10 * g)
    ctx.close(sig, [ref.vol(w, P.S) for w in W], "front-report-risk", rtol=1e-8, atol=1e-10)
    v = max(P.violation(w) for w in W)
    ctx.check(v <= 1e-7 * g, "front-feasible", "violated by %.3g" % v, lb=P.lb, ub=P.ub)
    mu, var = W @ P.mu, np.array([ref.variance(w, P.S) for w in W])
    d = np.diff(mu)
    ctx.check(np.all(d <= 1e-9 * g), "front-ordered", "return increases along the frontier by %.3g" % d.max(initial=0))
    ctx.check(np.all(np.diff(var) <= 1e-9 * max(1, var.max())), "front-risk-ordered", "risk increases along the frontier")
    top = ref.lp_max(P.mu, P.lb, P.ub)[0]
    ctx.check(abs(mu[0] - top) <= 1e-6 * g, "front-top", "starts at return %.9g, the largest attainable is %.9g" % (mu[0], top),
              mu=P.mu, lb=P.lb, ub=P.ub)
    L = ref.psd_root(P.S)
    x = cp.Variable(P.n)
    c = ref_solve(P, cp.sum_squares(L @ x), P.ref_cons(x), x)
    best, _ = best_of(P, lambda u: ref.variance(u, P.S), [c, P.a])
    ctx.check(var[-1] <= best * (1 + 2e-6) + 1e-10, "front-bottom", "ends at variance %.9g, the smallest is %.9g" % (var[-1], best),
              mu=P.mu, cov=P.S, lb=P.lb, ub=P.ub)
    k = len(W)
    pick = sorted(set([0, k - 1] + [int(i) for i in rng.integers(0, k, 6 if ctx.kind == "points" else 20)]))
    for i in pick:
        t = float(mu[i])
        c = ref_solve(P, cp.sum_squares(L @ x), P.ref_cons(x) + [P.mu @ x >= t], x)
        if c is None or P.violation(c) > 2e-7 or c @ P.mu < t - 2e-7:
            ctx.count("no_challenger")
            continue
        b = ref.variance(c, P.S)
        # accuracy of the challenger's return, priced by the frontier's slope
        slope = 2 * np.sqrt(b) * (np.sqrt(b) + 1)
        gap = (var[i] - b) / max(b, 1e-9)
        ctx.info["relgap"] = max(gap, ctx.info.get("relgap", 0.0))
        ctx.check(gap <= 2e-5, "front-efficient", "point %d of %d: variance %.9g at return %.9g, feasible with %.9g" % (
            i, k, var[i], t, b), mu=P.mu, cov=P.S, lb=P.lb, ub=P.ub, w=W[i], better=c)
        ctx.event("frontier-point", i=i, ret=t, variance=var[i], challenger=b)
    ctx.count("frontier_points", k)
    ctx.sig(ctx.kind, P.n, P.bkind, P.ckind, hist, bool(kw), len(o.w))
