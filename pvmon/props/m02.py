"""M02 Mean-variance optimality: the returned portfolio against the best verified-feasible
portfolio found by separately posed reference problems and challengers."""

from .common import *

BUDGET = {"quick": {"minvol": 1330, "util": 1330, "ret": 1330, "risk": 1330, "default_solver": 660, "amended": 270, "infeasible": 660},
          "thorough": {"minvol": 26600, "util": 26600, "ret": 26600, "risk": 26600, "default_solver": 13200, "amended": 5400, "infeasible": 13200}}
RULE = ("Each case draws a mean-variance problem (universe, bounds, constraints, sectors, extra objectives, market neutrality, "
        "target) with a strictly feasible anchor, solves it with the real optimiser and compares the objective value of the "
        "returned weights with the best verified-feasible portfolio from an independently posed reference problem and from "
        "challengers (anchor, blends). Infeasible problems must produce an error.")
MIN = {"chk:optimal": 200, "chk:infeasible-error": 20}
ASSUMES = ["CLARABEL solves the reference problem (only verified-feasible reference points are used)"]


def gap_check(ctx, P, w, f, refs, key, scale, what):
    """One-sided: f(w) must not exceed the best verified-feasible value."""
    total = P.total
    cands = list(refs) + [P.a] + [0.9 * P.a + 0.1 * c for c in refs if c is not None]
    best, bw = best_of(P, f, cands)
    if not np.isfinite(best):
        raise Skip("no verified reference")
    v = P.violation(w)
    ctx.check(v <= hooks.tol_now() * 5 * max(1.0, np.abs(w).sum()), "feasible-optimum",
              "%s: the returned portfolio violates the stated problem by %.3g" % (what, v), problem=P.describe(), w=w)
    slack = loosen(ST.solver) * (30 if ST.status != "optimal" else 1)
    tol = slack * (abs(best) + scale) + 1e-8 * (30 if ST.status != "optimal" else 1)  # solvers stop at an absolute gap of 1e-8
    gap = f(w) - best
    ctx.count("gap>1e-7" if gap > 1e-7 * (abs(best) + scale) else "gap<=1e-7")
    ctx.info["relgap"] = max(ctx.info.get("relgap", -1), gap / (abs(best) + scale))
    if key == "optimal" and ctx.info["relgap"] > loosen(ST.solver) / 10:
        ctx.count("near_tolerance")
    ctx.event("compare", objective=f(w), reference=best)
    ctx.check(gap <= tol, key, "%s: objective %.10g but a feasible portfolio has %.10g (solver %s, %s)" % (
        what, f(w), best, ST.solver, ST.status), problem=P.describe(), w=w, better=bw, mu=P.mu,
        cov=P.S if P.n <= 6 else None)


def run_method(ctx, P, method, amended=False):
    rng = ctx.rng
    L = ref.psd_root(P.S)
    n = P.n
    x = cp.Variable(n)
    scale = 0.02 * float(np.diag(P.S).max())
    kw = dict(market_neutral=P.neutral) if (P.neutral or rng.random() < 0.3) and method != "minvol" else {}
    if method == "minvol":
        f = lambda w: ref.variance(w, P.S) + P.extra(w)
        call = lambda e: e.min_volatility()
        ref_w = ref_solve(P, cp.sum_squares(L @ x) + P.extra_canon(x), P.ref_cons(x), x)
    elif method == "util":
        d = float(rng.choice([0.1, 0.5, 1, 2, 5, 20])) if rng.random() < 0.8 else 1
        f = lambda w: -float(w @ P.mu) + 0.5 * d * ref.variance(w, P.S) + P.extra(w)
        call = lambda e: e.max_quadratic_utility(risk_aversion=d, **kw)
        if d == 1 and rng.random() < 0.5:
            call = lambda e: e.max_quadratic_utility(**kw)
        ref_w = ref_solve(P, -P.mu @ x + 0.5 * d * cp.sum_squares(L @ x) + P.extra_canon(x), P.ref_cons(x), x)
        scale = max(scale, 0.02 * np.abs(P.mu).max())
        ctx.note(risk_aversion=d)
    elif method == "ret":
        top = ref_solve(P, -P.mu @ x, P.ref_cons(x), x)
        ra = float(P.a @ P.mu)
        t = ra - float(rng.choice([1e-3, 0.02, 0.1]))
        if top is not None and rng.random() < 0.5:
            t = ra + float(rng.uniform(0, 0.95)) * max(0.0, float(top @ P.mu) - ra) - 1e-6
        f = lambda w: ref.variance(w, P.S) + P.extra(w)
        call = lambda e: e.efficient_return(t, **kw)
        ref_w = ref_solve(P, cp.sum_squares(L @ x) + P.extra_canon(x), P.ref_cons(x) + [P.mu @ x >= t], x)
        if ref_w is not None and float(ref_w @ P.mu) < t - 1e-7:
            ref_w = None
        ctx.note(target=t)
    else:
        va = ref.vol(P.a, P.S)
        t = va * float(rng.choice([1.001, 1.1, 1.5])) + 1e-4
        if va < 0.01:
            t = float(rng.uniform(0.02, 0.3))
        low = ref_solve(P, cp.sum_squares(L @ x), P.ref_cons(x), x)
        if low is not None and rng.random() < 0.4:
            t = ref.vol(low, P.S) * float(rng.uniform(1.02, 1.3)) + 1e-3
        f = lambda w: -float(w @ P.mu) + P.extra(w)
        call = lambda e: e.efficient_risk(t, **kw)
        ref_w = ref_solve(P, -P.mu @ x + P.extra_canon(x), P.ref_cons(x) + [cp.norm(L @ x, 2) <= t * (1 - 1e-7)], x)
        if ref_w is not None and ref.vol(ref_w, P.S) > t * (1 + 1e-7):
            ref_w = None
        scale = 0.05 * np.abs(P.mu).max()
        ctx.note(target=t)
    ctx.note(method=method, problem=P.describe())
    o, r = solve(ctx, P, P.ef, call, what=method)
    if set(r) != set(P.tk):
        raise Skip("labels (decided by M01)")
    w = P.port(r)
    refs = [ref_w]
    if method in ("ret", "risk"):
        # the anchor is only a challenger if it meets the target
        ok = (P.a @ P.mu >= t) if method == "ret" else ref.vol(P.a, P.S) <= t
        keep = P.a
        if not ok:
            P.a = np.full(n, np.nan)
        try:
            gap_check(ctx, P, w, f, refs, "optimal", scale, method)
        finally:
            P.a = keep
    else:
        gap_check(ctx, P, w, f, refs, "optimal", scale, method)
    ctx.sig(method, *P.signature())


def run_case(ctx):
    rng = ctx.rng
    k = ctx.kind
    nobj = int(rng.choice([0, 1, 2], p=[0.65, 0.25, 0.1]))
    if k in ("minvol", "util", "ret", "risk"):
        neutral = k != "minvol" and rng.random() < 0.25
        P = gen.Problem(rng, neutral=neutral, nobj=nobj, solver=str(rng.choice(["CLARABEL", "ECOS"], p=[0.8, 0.2])))
        run_method(ctx, P, k)
    elif k == "default_solver":
        P = gen.Problem(rng, nobj=nobj, solver=None, neutral=False)
        run_method(ctx, P, str(rng.choice(["minvol", "util", "ret", "risk"])))
    elif k == "amended":
        # market neutrality with long-only bounds: documented to widen them to (-1, 1)
        P = gen.Problem(rng, neutral=False, ncons=0, sector=False, nobj=nobj, solver="CLARABEL",
                        bkind=str(rng.choice(["default", "pair_narrow", "list", "arrays"])), shorts=False, lo=2)
        if np.any(P.lb < 0):
            raise Skip("bounds already allow shorting")
        P.neutral, P.total = True, 0.0
        P.lb, P.ub = -np.ones(P.n), np.ones(P.n)
        P.a = np.zeros(P.n)
        run_method(ctx, P, str(rng.choice(["util", "ret", "risk"])), amended=True)
    else:
        infeasible(ctx)


def infeasible(ctx):
    """Empty feasible sets (by a clear margin): an error, never a portfolio."""
    rng = ctx.rng
    P = gen.Problem(rng, neutral=False, ncons=int(rng.integers(0, 2)), sector=False, solver=str(rng.choice(["CLARABEL", "ECOS"])))
    how = str(rng.choice(["bounds_low", "bounds_high", "constraint", "pair", "sector"]))
    if how == "bounds_low":
        P.arg_bounds = (0.0, float(0.9 / P.n)) if P.n > 2 or rng.random() < 0.5 else [(0.0, 0.4)] * P.n
    elif how == "bounds_high":
        P.arg_bounds = (float(1.2 / P.n), 2.0)
    elif how == "constraint":
        m = max(2.0, float(np.where(np.isfinite(P.ub), P.ub, 5).max()) + 0.5)
        i = int(rng.integers(P.n))
        P.ub = np.where(np.isfinite(P.ub), P.ub, 5)
        P.arg_bounds = [(float(l), float(u)) for l, u in zip(P.lb, P.ub)]
        P.cons.append(gen.Con(lambda w: w[i] >= m, None, None, "impossible"))
    elif how == "pair":
        i = int(rng.integers(P.n))
        P.cons += [gen.Con(lambda w: w[i] >= 0.6, None, None, "x"), gen.Con(lambda w: w[i] <= 0.4, None, None, "x")]
    else:
        m = {t: "s" for t in P.tk}
        P.sec = (m, {}, {"s": 0.8}) if rng.random() < 0.5 else (m, {"s": 1.2}, {})
    method = str(rng.choice(["minvol", "util", "ret", "risk", "sharpe"]))
    ctx.note(method=method, how=how, problem=P.describe())
    call = {"minvol": lambda e: e.min_volatility(), "util": lambda e: e.max_quadratic_utility(),
            "ret": lambda e: e.efficient_return(float(P.mu.min() - 1)), "risk": lambda e: e.efficient_risk(5.0),
            "sharpe": lambda e: e.max_sharpe(risk_free_rate=float(P.mu.max() - 1))}[method]
    e = P.ef()
    r, err = attempt(lambda: call(e))
    ctx.check(r is None, "infeasible-error", "%s returned a portfolio for an infeasible problem (%s)" % (method, how),
              problem=P.describe(), result=None if r is None else dict(r))
    ctx.check(r is not None or e.weights is None, "infeasible-weights", "weights stored although %s failed" % method)
    ctx.sig("infeasible", method, how, err, P.bkind)
