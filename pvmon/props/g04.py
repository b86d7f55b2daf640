"""G04 Custom objectives: minimised over exactly the declared feasible set."""

from .common import *
from scipy.special import xlogy

BUDGET = {"quick": {"convex": 1810, "base": 540, "nosum": 540, "nonconvex": 540, "risk": 181, "infeasible": 270},
          "thorough": {"convex": 36200, "base": 10800, "nosum": 10800, "nonconvex": 10800, "risk": 3600, "infeasible": 5400}}
RULE = ("Each case draws a universe with bounds, constraints, sectors and extra objective terms, a custom objective from a family "
        "of convex (barrier, entropy, norms, Huber, exponential utility, tracking) or non-convex functions with parameters, "
        "solves with the real optimiser, and compares the objective of the returned weights with a verified-feasible reference.")
MIN = {"chk:custom-optimal": 150, "chk:nonconvex-improves": 40}
ASSUMES = ["CLARABEL solves the reference problem (only verified-feasible reference points are used)"]


def custom(rng, P, form=None):
    """(written objective, kwargs, canonical expr, numeric) ; parameters go through kwargs."""
    n = P.n
    S, mu = P.S, P.mu
    forms = ["quad", "quad_lin", "sumsq", "norm_inf", "norm1", "huber", "logsumexp", "maxdev", "linear"]
    if np.all(P.a > 0.005):
        forms += ["barrier", "entropy"]
    form = form or str(rng.choice(forms))
    L = ref.psd_root(S)
    c = rng.dirichlet(np.ones(n))
    k = float(rng.choice([0.05, 0.3, 2.0]))
    if form == "quad":
        return form, (lambda w, cov_matrix: cp.quad_form(w, cov_matrix, assume_PSD=True)), dict(cov_matrix=S), lambda w: cp.sum_squares(L @ w), lambda w: float(w @ S @ w)
    if form == "quad_lin":
        return form, (lambda w, cov, m, k=1: cp.quad_form(w, cov, assume_PSD=True) - k * (w @ m)), dict(cov=S, m=mu, k=k), \
            lambda w: cp.sum_squares(L @ w) - k * (mu @ w), lambda w: float(w @ S @ w - k * (mu @ w))
    if form == "sumsq":
        return form, (lambda w, c, k=3: k * cp.sum_squares(w - c)), dict(c=c, k=k), lambda w: k * cp.sum_squares(w - c), lambda w: k * float(((w - c) ** 2).sum())
    if form == "norm_inf":
        return form, (lambda w: cp.norm(w, "inf") + 0.1 * cp.sum_squares(w)), {}, lambda w: cp.max(cp.abs(w)) + 0.1 * cp.sum_squares(w), lambda w: float(np.abs(w).max() + 0.1 * w @ w)
    if form == "norm1":
        return form, (lambda w, p: cp.norm(w - p, 1)), dict(p=c), lambda w: cp.norm1(w - c), lambda w: float(np.abs(w - c).sum())
    if form == "huber":
        return form, (lambda w, c, M=1: cp.sum(cp.huber(w - c, M))), dict(c=c, M=0.05), lambda w: cp.sum(cp.huber(w - c, 0.05)), \
            lambda w: float(np.where(np.abs(w - c) <= 0.05, (w - c) ** 2, 0.1 * np.abs(w - c) - 0.0025).sum())
    if form == "logsumexp":
        A = rng.normal(0, 0.3, (12, n))
        return form, (lambda w, A: cp.log_sum_exp(-A @ w)), dict(A=A), lambda w: cp.log_sum_exp(-A @ w), lambda w: float(np.log(np.exp(-A @ w).sum()))
    if form == "maxdev":
        A = rng.normal(0, 0.3, (10, n))
        return form, (lambda w, A: cp.max(A @ w) + 0.5 * cp.sum_squares(w)), dict(A=A), lambda w: cp.max(A @ w) + 0.5 * cp.sum_squares(w), \
            lambda w: float((A @ w).max() + 0.5 * w @ w)
    if form == "linear":
        return form, (lambda w, m: -(m @ w) + 0.2 * cp.sum_squares(w)), dict(m=mu), lambda w: -(mu @ w) + 0.2 * cp.sum_squares(w), lambda w: float(-(mu @ w) + 0.2 * w @ w)
    if form == "barrier":
        return form, (lambda w, cov_matrix, k=0.1: cp.quad_form(w, cov_matrix, assume_PSD=True) - k * cp.sum(cp.log(w))), dict(cov_matrix=S, k=k), \
            lambda w: cp.sum_squares(L @ w) - k * cp.sum(cp.log(w)), lambda w: float(w @ S @ w - k * np.log(np.maximum(w, 1e-300)).sum())
    return "entropy", (lambda w: -cp.sum(cp.entr(w))), {}, lambda w: -cp.sum(cp.entr(w)), lambda w: float(xlogy(np.maximum(w, 0), np.maximum(w, 1e-300)).sum())


def judge(ctx, P, w, f, rw, what):
    v = P.violation(w)
    ctx.check(v <= hooks.tol_now() * 5 * max(1.0, np.abs(w).sum()), "custom-feasible", "%s: declared set violated by %.3g" % (what, v),
              problem=P.describe(), w=w)
    best, bw = best_of(P, f, [rw, P.a] + ([0.9 * P.a + 0.1 * rw] if rw is not None else []))
    if not np.isfinite(best):
        raise Skip("no verified reference")
    slack = {"CLARABEL": 1e-5, "ECOS": 1e-5}.get(ST.solver, 2e-2) * (30 if ST.status != "optimal" else 1)
    tol = slack * (abs(best) + 0.05)
    ctx.info["relgap"] = (f(w) - best) / (abs(best) + 0.05)
    ctx.event("compare", objective=f(w), reference=best)
    ctx.check(f(w) <= best + tol, "custom-optimal", "%s: objective %.9g but a feasible portfolio has %.9g (%s, %s)" % (
        what, f(w), best, ST.solver, ST.status), problem=P.describe(), w=w, better=bw)


def run_case(ctx):
    from pypfopt import EfficientFrontier
    from pypfopt.base_optimizer import BaseConvexOptimizer

    rng = ctx.rng
    k = ctx.kind
    if k == "nonconvex":
        return nonconvex(ctx)
    if k == "risk":
        return risk(ctx)
    if k == "infeasible":
        return infeasible(ctx)
    nobj = int(rng.choice([0, 1, 2], p=[0.6, 0.3, 0.1]))
    P = gen.Problem(rng, nobj=nobj, solver=str(rng.choice(["CLARABEL", "ECOS"], p=[0.85, 0.15])), neutral=False)
    form, obj, kw, canon, num = custom(rng, P)
    total = 1.0
    if k == "nosum":
        # no full-investment condition: only bounds and constraints
        P.total = None
        total = None
        if not np.all(np.isfinite(P.ub)):
            raise Skip("unbounded")
    x = cp.Variable(P.n)
    rw = ref_solve(P, canon(x) + P.extra_canon(x), P.ref_cons(x, total), x)
    f = lambda w: num(w) + P.extra(w)
    if k == "base":
        P.tk = list(P.tk)
        given = rng.random() < 0.8
        make = lambda: _base(BaseConvexOptimizer, P, given)
        if not given:
            P.tk = list(range(P.n))
            if P.sec:
                P.sec = None
                rw = ref_solve(P, canon(x) + P.extra_canon(x), P.ref_cons(x, total), x)
    else:
        make = P.ef
    ctx.note(form=form, problem=P.describe())
    call = (lambda o: o.convex_objective(obj, weights_sum_to_one=False, **kw)) if k == "nosum" else (
        (lambda o: o.convex_objective(obj, **kw)) if rng.random() < 0.7 else (lambda o: o.convex_objective(obj, weights_sum_to_one=True, **kw)))
    o, r = solve(ctx, P, make, call, what="convex_objective " + form)
    if not ctx.check(set(r) == set(P.tk), "labels", "labels %r" % list(r)[:5]):
        return
    w = P.port(r)
    judge(ctx, P, w, f, rw, form)
    ctx.sig(k, form, *P.signature())


def _base(cls, P, given):
    o = cls(P.n, tickers=P.tk if given else None, weight_bounds=P.arg_bounds, solver=P.solver)
    P.dress(o)
    return o


def risk(ctx):
    """Custom objectives on the historic-risk optimisers."""
    from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance

    rng = ctx.rng
    P = gen.Problem(rng, returns=True, T=30, solver="CLARABEL", hi=6, neutral=False)
    cls = [EfficientSemivariance, EfficientCVaR, EfficientCDaR][int(rng.integers(3))]
    form, obj, kw, canon, num = custom(rng, P)
    x = cp.Variable(P.n)
    rw = ref_solve(P, canon(x), P.ref_cons(x, 1.0), x)
    ctx.note(form=form, cls=cls.__name__, problem=P.describe())
    o, r = solve(ctx, P, lambda: P.make(cls, P.arg_mu, P.R), lambda o: o.convex_objective(obj, **kw), what=cls.__name__ + " " + form)
    if not ctx.check(set(r) == set(P.tk), "labels", "labels %r" % list(r)[:5]):
        return
    judge(ctx, P, P.port(r), num, rw, form)
    ctx.sig(cls.__name__, form, *P.signature())


def nonconvex(ctx):
    from pypfopt import EfficientFrontier
    from pypfopt.base_optimizer import BaseConvexOptimizer

    rng = ctx.rng
    n = gen.size(rng, 2, 8, 0.0)
    S, _ = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "block"])))
    mu, _ = gen.means(rng, n, "normal")
    tk, _ = gen.tickers(rng, n)
    sumto = rng.random() < 0.75
    shorts = rng.random() < 0.4
    a = gen.anchor(rng, n, 1.0, shorts)
    lb = np.round(a - rng.uniform(0.05, 0.4, n), 3)
    ub = np.round(a + rng.uniform(0.05, 0.4, n), 3)
    if not shorts:
        lb = np.maximum(lb, 0)
    default = rng.random() < 0.4
    if default:
        a = np.full(n, 1 / n)
        lb, ub = np.minimum(lb, 1 / n - 0.02), np.maximum(ub, 1 / n + 0.02)
    form = str(rng.choice(["sharpe", "riskparity", "min_return", "kurt", "quad"]))
    L = S / np.sqrt(np.diag(S)).mean() ** 2
    cons = []
    if rng.random() < 0.4:
        v = np.round(rng.normal(0, 1, n), 2)
        c = float(v @ a + 0.05)
        cons.append({"type": "ineq", "fun": lambda w: c - v @ w})
    fun = {"sharpe": lambda w, m, C: -(w @ m) / np.sqrt(w @ C @ w + 1e-6),
           "riskparity": lambda w, m, C: float(((w * (C @ w) / (w @ C @ w + 1e-9) - 1 / n) ** 2).sum()),
           "min_return": lambda w, m, C: float(-(w @ m) + 0.3 * np.sin(5 * w).sum() * 0.1),
           "kurt": lambda w, m, C: float(((w - 0.2) ** 4).sum() - 0.05 * (w @ m)),
           "quad": lambda w, m, C: float(w @ C @ w - 0.5 * (w @ m))}[form]
    kw = {}
    if not default:
        kw["initial_guess"] = a
    if cons or rng.random() < 0.5:
        kw["constraints"] = cons if cons else None
    if not sumto:
        kw["weights_sum_to_one"] = False
    bd = [(float(l), float(u)) for l, u in zip(lb, ub)]
    if rng.random() < 0.5:
        o = EfficientFrontier(pd.Series(mu, index=tk), S, weight_bounds=bd)
    else:
        o = BaseConvexOptimizer(n, tickers=tk, weight_bounds=bd)
    if rng.random() < 0.2:
        kw["solver"] = "trust-constr" if rng.random() < 0.5 else "SLSQP"
    af = str(rng.choice(["tuple", "closure", "closure_empty", "single", "list", "dict"]))
    if af == "tuple":
        given, kw2 = fun, dict(objective_args=(mu, L))
    elif af == "list":  # anything but a tuple is one argument
        given, kw2 = (lambda w, a: fun(w, a[0], a[1])), dict(objective_args=[mu, L])
    elif af == "dict":
        given, kw2 = (lambda w, a: fun(w, a["m"], a["S"])), dict(objective_args={"m": mu, "S": L})
    elif af == "single":
        given, kw2 = (lambda w, m: fun(w, m, L)), dict(objective_args=mu)
    else:
        given, kw2 = (lambda w: fun(w, mu, L)), ({} if af == "closure" else dict(objective_args=()))
    r, err = attempt(lambda: o.nonconvex_objective(given, **kw, **kw2))
    ctx.note(form=form, n=n, sum_to_one=sumto, constraints=len(cons), default_start=default, solver=kw.get("solver"))
    if err is not None:
        # the general-purpose solver may give up (reported as an error, no weights)
        ctx.check(o.weights is None, "failed-no-weights")
        ctx.count("nonconvex_refused")
        raise Skip("solver gave up")
    ok = set(r) == set(tk)
    if not ctx.check(ok, "labels", "labels %r" % list(r)[:5]):
        return
    w = np.array([r[t] for t in tk], float)
    viol = max(float(np.max(lb - w)), float(np.max(w - ub)), abs(w.sum() - 1) if sumto else 0.0, *[float(-c["fun"](w)) for c in cons], 0.0)
    ctx.check(viol <= 1e-5, "nonconvex-feasible", "declared set violated by %.3g" % viol, w=w, lb=lb, ub=ub)
    f0, f1 = float(fun(a, mu, L)), float(fun(w, mu, L))
    tol = 1e-4 * (abs(f0) + 0.05)
    ctx.event("nonconvex", start=f0, end=f1)
    ctx.check(f1 <= f0 + tol, "nonconvex-improves", "%s: %.8g at the start, %.8g returned" % (form, f0, f1), w=w)
    if form == "quad" and "solver" not in kw and sumto:
        # convex after all: the local optimum is global
        x = cp.Variable(n)
        R = ref.psd_root(L)
        cc = ref.base_cons(x, lb, ub, 1.0)
        if cons:
            cc.append(v_dot(cons, x, n))
        st, rw = ref.solve(cp.sum_squares(R @ x) - 0.5 * (mu @ x), cc, x)
        if rw is not None:
            ctx.check(f1 <= float(fun(rw, mu, L)) + 1e-3 * (abs(f0) + 0.05), "nonconvex-optimal", "%.8g, reference %.8g" % (f1, fun(rw, mu, L)))
    ctx.sig("nonconvex", form, n, sumto, len(cons), default, kw.get("solver"), af)


def v_dot(cons, x, n):
    f = cons[0]["fun"]
    c = f(np.zeros(n))
    v = np.array([c - f(e) for e in np.eye(n)])
    return v @ x <= c


def infeasible(ctx):
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    n = int(rng.integers(2, 6))
    S, _ = gen.covariance(rng, n, "wishart")
    mu, _ = gen.means(rng, n)
    if rng.random() < 0.5:
        o = EfficientFrontier(mu, S, weight_bounds=(0, 0.8 / n))
        r, err = attempt(lambda: o.nonconvex_objective(lambda w: float(w @ S @ w), objective_args=()))
        what = "nonconvex"
    else:
        o = EfficientFrontier(mu, S, weight_bounds=(0, 0.8 / n), solver="CLARABEL")
        r, err = attempt(lambda: o.convex_objective(lambda w: cp.sum_squares(w)))
        what = "convex"
    ctx.check(r is None and o.weights is None, "infeasible-error", "%s returned a portfolio for an empty feasible set" % what, result=r)
    # a non-convex function handed to the convex method is refused
    o = EfficientFrontier(mu, S, solver="CLARABEL")
    r, err = attempt(lambda: o.convex_objective(lambda w: -cp.sum_squares(w)))
    ctx.check(r is None and o.weights is None, "nonconvex-refused", "convex_objective accepted a concave objective", result=r)
    ctx.sig("infeasible", what, n, err)
