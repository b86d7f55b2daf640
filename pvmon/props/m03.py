"""M03 Tangency portfolio: Sharpe ratio of the returned weights against verified-feasible
challengers (Dinkelbach iteration on the untransformed problem)."""

from .common import *

BUDGET = {"quick": {"tight": 1310, "default_solver": 420, "cons": 1050, "refuse": 158, "unattainable": 105, "unlimited": 210},
          "thorough": {"tight": 26200, "default_solver": 8400, "cons": 21000, "refuse": 3200, "unattainable": 2100, "unlimited": 4200}}
RULE = ("Each case draws a universe, bounds, constraints in varied syntactic forms, sectors and a risk-free rate for which the "
        "anchor portfolio has positive excess return, calls max_sharpe and compares its Sharpe ratio with verified-feasible "
        "portfolios from Dinkelbach iterations on the original (untransformed) feasible set.")
MIN = {"chk:sharpe-optimal": 200}
ASSUMES = ["CLARABEL solves the Dinkelbach subproblems (only verified-feasible points are used)"]


def dinkelbach(P, ex, L, iters=12):
    w = P.a
    out = [w]
    x = cp.Variable(P.n)
    cons = P.ref_cons(x)
    s = cp.Parameter(nonneg=True)
    last = None
    for _ in range(iters):
        v = ref.vol(w, P.S)
        e = float(w @ ex)
        if e <= 0 or v <= 1e-9:
            break
        sh = e / v
        if last is not None and sh - last <= 1e-9 * abs(sh):
            break
        last = sh
        n = ref_solve(P, -(ex @ x) + sh * cp.norm(L @ x, 2), cons, x)
        if n is None:
            break
        out.append(n)
        if float(n @ ex) <= 0 or P.violation(n) > 1e-6:
            break
        w = n
    return out


def problem(ctx, forms=None, solver="CLARABEL"):
    rng = ctx.rng
    P = gen.Problem(rng, ncons=0 if forms else None, solver=solver)
    if forms and P.n > 1:
        for f in forms:
            P.cons.append(gen.constraint(rng, P.a, P.S, P.lb, P.ub, form=f))
        eqs = [c for c in P.cons if "eq" in c.form]
        if len(eqs) > 1 or (eqs and P.n < 3):
            P.cons = [c for c in P.cons if "eq" not in c.form]
    ra = float(P.a @ P.mu)
    mx = float(P.mu.max())
    mode = str(rng.choice(["zero", "pos", "neg", "near"]))
    rf = {"zero": 0.0, "pos": 0.02, "neg": -0.03, "near": ra - 0.005}[mode]
    if ra - rf < 0.003:
        rf = ra - float(rng.choice([0.01, 0.05]))
    if rf >= mx - 1e-3:
        rf = mx - 0.02
    P.rf = float(rf)
    if float(P.a @ P.mu) - P.rf < 0.002:
        raise Skip("anchor has no excess return")
    return P


def run_case(ctx):
    rng = ctx.rng
    if ctx.kind == "refuse":
        return refuse(ctx)
    if ctx.kind == "unattainable":
        return unattainable(ctx)
    if ctx.kind == "unlimited":
        return unlimited(ctx)
    if ctx.kind == "cons":
        fs = gen.CON_FORMS + gen.CON_CONVEX
        forms = [str(x) for x in rng.choice(fs, int(rng.integers(1, 4)), replace=False)]
        P = problem(ctx, forms, str(rng.choice(["CLARABEL", "ECOS"], p=[0.85, 0.15])))
    elif ctx.kind == "default_solver":
        P = problem(ctx, None, None)
    else:
        P = problem(ctx, None, str(rng.choice(["CLARABEL", "ECOS"], p=[0.8, 0.2])))
    ctx.note(problem=P.describe(), rf=P.rf)
    if P.rf == 0 and rng.random() < 0.5:
        call = lambda e: e.max_sharpe()
    else:
        call = lambda e: e.max_sharpe(risk_free_rate=P.rf)
    o, r = solve(ctx, P, P.ef, call, what="max_sharpe")
    if set(r) != set(P.tk):
        raise Skip("labels (decided by M01)")
    w = P.port(r)
    st, sol = ST.status, ST.solver
    ex = P.mu - P.rf
    L = ref.psd_root(P.S)
    tol = hooks.tol_now()
    v = P.violation(w)
    ctx.check(v <= tol * 5 * max(1.0, np.abs(w).sum()), "feasible-optimum", "max_sharpe: constraint violated by %.3g" % v,
              problem=P.describe(), w=w, rf=P.rf)
    e = float(w @ ex)
    f = lambda u: ref.vol(u, P.S) / float(u @ ex) if float(u @ ex) > 1e-6 else np.inf
    cands = dinkelbach(P, ex, L)
    best, bw = best_of(P, f, cands)
    if not np.isfinite(best):
        raise Skip("no verified reference")
    # the solver works on the squared ratio, to an absolute accuracy
    slack = loosen(sol) * (30 if st != "optimal" else 1) * (10 if sol == "OSQP" else 4)
    base = best**2 + (0.02 if sol != "OSQP" else 0.2) * min(1.0, f(P.a) ** 2)
    ctx.event("compare", inverse_sharpe=f(w), reference=best, solver=sol)
    rel = max(0.0, f(w) ** 2 - best**2 - 2e-8) / base if np.isfinite(f(w)) else np.inf
    ctx.info["relgap"] = rel
    if rel > slack / 10:
        ctx.count("near_tolerance:%s" % sol)
    ctx.check(rel <= slack, "sharpe-optimal", "vol/excess %.9g (Sharpe %.6g) but a feasible portfolio has %.9g (%s, %s)" % (
        f(w), 1 / f(w) if f(w) else np.inf, best, sol, st), problem=P.describe(), rf=P.rf, w=w, better=bw)
    # the report uses the rate of this solve
    perf = o.portfolio_performance(risk_free_rate=P.rf)
    if perf[1] > 1e-5:
        ctx.close(perf[2], e / ref.vol(w, P.S), "reported-sharpe", rtol=1e-4, atol=1e-6)
    ctx.sig(ctx.kind, "rf%+d" % np.sign(P.rf), *P.signature())


def refuse(ctx):
    rng = ctx.rng
    P = gen.Problem(rng, solver="CLARABEL", ncons=int(rng.integers(0, 2)))
    mx = float(P.mu.max())
    rf = mx if rng.random() < 0.3 else mx + float(rng.uniform(0, 0.2))
    e = P.ef()
    try:
        r = e.max_sharpe(risk_free_rate=rf)
        ok = False
    except ValueError:
        r, ok = None, True
    ctx.check(ok, "refuse-rate", "risk-free rate %g, largest expected return %g" % (rf, mx), result=r)
    ctx.check(e.weights is None, "refuse-no-weights")
    ctx.sig("refuse", P.n, rf == mx)


def unattainable(ctx):
    """Some asset beats the rate, but no portfolio within the limits does."""
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    mu = rng.uniform(-0.1, 0.05, n)
    i = int(np.argmax(mu))
    mu[i] = 0.3
    P = gen.Problem(rng, n=n, bkind="default", ncons=0, sector=False, solver="CLARABEL")
    cap = 0.1
    P.mu = mu
    P.arg_mu = pd.Series(mu, index=P.tk)
    P.arg_cov = pd.DataFrame(P.S, index=P.tk, columns=P.tk)
    P.arg_bounds = [(0.0, cap if j == i else 1.0) for j in range(n)]
    top = cap * 0.3 + (1 - cap) * np.sort(mu)[-2]
    rf = float(min(top + 0.03, 0.25))
    e = P.ef()
    r, err = attempt(lambda: e.max_sharpe(risk_free_rate=rf))
    ctx.check(r is None, "no-excess-error", "returned a portfolio although none beats the rate %g (best %g)" % (rf, top), result=r)
    ctx.sig("unattainable", n, err)


def unlimited(ctx):
    """No limits at all: the closed-form tangency portfolio, or an error when it does not exist."""
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    S, kind = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "diag", "block"])))
    mu, mk = gen.means(rng, n)
    rf = float(rng.choice([0.0, 0.02, -0.03]))
    if mu.max() <= rf + 1e-3:
        raise Skip("no asset beats the rate")
    tk, _ = gen.tickers(rng, n)
    t = np.linalg.solve(S, mu - rf)
    lev = float(t.sum() / np.abs(t).sum())
    if abs(lev) < 0.02:
        raise Skip("near the border of existence")
    from pypfopt import EfficientFrontier

    solver = [None, "CLARABEL", "ECOS"][int(rng.integers(3))]
    e = EfficientFrontier(pd.Series(mu, index=tk), pd.DataFrame(S, index=tk, columns=tk), weight_bounds=[(None, None)] * n, solver=solver)
    r, err = attempt(lambda: e.max_sharpe(risk_free_rate=rf))
    ctx.note(n=n, rf=rf, leverage=1 / lev, solver=solver, error=err)
    if lev < 0:
        if solver is None and r is not None:
            # a first-order solver cannot tell; but whatever comes back must be a portfolio
            ctx.check(np.isfinite(list(r.values())).all(), "finite", "weights %r" % dict(r))
            ctx.count("loose_solver_unattained")
            return
        ctx.check(r is None, "unattained-error", "no portfolio attains the maximum Sharpe ratio, but one was returned", w=r, mu=mu, cov=S)
        ctx.check(e.weights is None, "unattained-weights", repr(e.weights))
    else:
        if err is not None and err.startswith("solver"):
            raise Skip("solver failure")
        if not ctx.check(err is None, "tangency-refused", "the tangency portfolio exists (gross leverage %.3g) but: %s" % (1 / lev, err), mu=mu, cov=S):
            return
        w = np.array([r[k] for k in tk])
        want = float(np.sqrt((mu - rf) @ t))
        ex = float(w @ (mu - rf))
        got = ex / ref.vol(w, S) if ref.vol(w, S) > 0 else np.nan
        tol = 2e-5 if solver else 3e-2
        ctx.check(got >= want * (1 - tol), "tangency-closed-form", "Sharpe %.8g, closed form %.8g" % (got, want), w=w, mu=mu, cov=S)
        if solver:
            ctx.check(abs(w.sum() - 1) < 1e-5 * np.abs(w).sum(), "tangency-budget", w.sum())
    ctx.sig("unlimited", n, kind, solver, lev > 0)
