"""S02 Frozen once solved; failures never yield weights.  Illegal follow-up calls and injected
solver outcomes, with the stored weights and the reported performance watched across them."""

import scipy.optimize

from .risklib import *

BUDGET = {"quick": {"freeze": 1750, "fault": 1750, "refault": 1090, "failfirst": 670, "limits": 840, "nondcp": 500, "unbounded": 250, "scipy": 330, "alloc": 250},
          "thorough": {"freeze": 35000, "fault": 35000, "refault": 21800, "failfirst": 13400, "limits": 16800, "nondcp": 10000, "unbounded": 5000, "scipy": 6600, "alloc": 5000}}
RULE = ("freeze: solve, then draw 3-8 illegal calls (new objective, constraint, sector limits, another optimisation) and "
        "compare weights and report before and after each. fault/refault: the solver is made to report each non-success status, "
        "raise, or fill its variables with garbage, at the first or at a later solve. limits: real iteration limits. "
        "nondcp/unbounded: problems no convex solver can solve. scipy: failing general-purpose solves. alloc: failing "
        "integer programmes. A faulted case counts only if the injected fault was reached.")
MIN = {"chk:freeze-refused": 300, "chk:fault-raises": 200, "chk:freeze-weights": 300}
ASSUMES = ["a solver reports its outcome through the problem status or an exception"]

STATUSES = ["infeasible", "unbounded", "infeasible_inaccurate", "unbounded_inaccurate", "user_limit", "solver_error",
            "infeasible_or_unbounded"]


def factory(ctx, kinds=("ef", "ef", "semi", "cvar", "cdar")):
    """(make, methods): methods maps a name to a callable(o, rng) solving a feasible problem."""
    rng = ctx.rng
    kind = str(rng.choice(list(kinds)))
    if kind == "ef":
        P = gen.Problem(rng, solver=str(rng.choice(["CLARABEL", "ECOS"])), neutral=False, convex=False,
                        cov_kind=str(rng.choice(["factor", "wishart", "block"])))
        make = P.ef
        risk = lambda w: ref.vol(w, P.S)
    else:
        Q = Panel(ctx, kind, neutral=False)
        P, make, risk = Q.P, Q.make, Q.risk
        make()
        risk = Q.risk
    mu_a = float(P.a @ P.mu)
    ra = max(float(risk(P.a)), 1e-4)
    pos = kind in ("semi", "cdar", "cvar")
    tret = mu_a - 0.01 if not pos else max(mu_a - 0.01, 1e-4)
    M = {}
    if kind == "ef":
        M["min_volatility"] = lambda o: o.min_volatility()
        if mu_a > 0.01:
            M["max_sharpe"] = lambda o: o.max_sharpe(risk_free_rate=float(ctx.rng.choice([0.0, mu_a - 0.008])))
    else:
        nm = SPEC[kind]["minimise"]
        M[nm] = lambda o: getattr(o, nm)()
    if kind in ("ef", "semi"):
        M["max_quadratic_utility"] = lambda o: o.max_quadratic_utility(risk_aversion=float(ctx.rng.choice([0.5, 1, 3])))
    if kind != "semi" or tret < np.abs(P.mu).max():
        if tret < mu_a or kind == "ef":
            M["efficient_return"] = lambda o: o.efficient_return(float(tret - float(ctx.rng.uniform(0, 0.2)) * max(0, tret)))
    M["efficient_risk"] = lambda o: o.efficient_risk(float(ra * ctx.rng.uniform(1.05, 2)))
    M["convex_objective"] = lambda o: o.convex_objective(lambda w: cp.sum_squares(w))
    return kind, P, make, M


def snapshot(o, kind):
    w = None if o.weights is None else np.array(o.weights, copy=True)
    perf = None
    if w is not None:
        perf = tuple(None if x is None else float(x) for x in o.portfolio_performance())
        if kind == "ef":
            perf += tuple(None if x is None else float(x) for x in o.portfolio_performance(risk_free_rate=0.013))
    return w, perf


def same(a, b):
    if (a[0] is None) != (b[0] is None):
        return False, False
    if a[0] is None:
        return True, True
    eq = lambda x, y: (x is None and y is None) or (x is not None and y is not None and (x == y or (np.isnan(x) and np.isnan(y))
                                                                                       or abs(x - y) <= 1e-12 * max(1, abs(x))))
    return np.array_equal(a[0], b[0]), len(a[1]) == len(b[1]) and all(eq(x, y) for x, y in zip(a[1], b[1]))


def watch(ctx, o, kind, before, key, what):
    after = snapshot(o, kind)
    w, p = same(before, after)
    ctx.check(w, key + "-weights", "%s changed the stored weights" % what, before=before[0], after=after[0])
    ctx.check(p, key + "-report", "%s changed the reported performance from %r to %r" % (what, before[1], after[1]))


def run_case(ctx):
    dict(freeze=freeze, fault=fault, refault=refault, limits=limits, nondcp=nondcp, unbounded=unbounded, scipy=scipy_fault,
         alloc=alloc, failfirst=failfirst)[ctx.kind](ctx)


def illegal(ctx, o, P, M, used):
    rng = ctx.rng
    of = pypfopt.objective_functions
    n = P.n
    ops = ["obj", "obj_kw", "con", "con_eq", "sector", "method"]
    op = str(rng.choice(ops, p=[0.12, 0.1, 0.15, 0.1, 0.15, 0.38]))
    if op == "obj":
        return op, lambda: o.add_objective(of.L2_reg)
    if op == "obj_kw":
        return op, lambda: o.add_objective(of.transaction_cost, w_prev=np.full(n, 1 / n), k=0.01)
    if op == "con":
        return op, lambda: o.add_constraint(lambda w: w[0] <= 0.9)
    if op == "con_eq":
        return op, lambda: o.add_constraint(lambda w: cp.sum(w) == 1)
    if op == "sector":
        m = {t: "s" for t in P.tk}
        return op, (lambda: o.add_sector_constraints(m, {}, {"s": 2.0})) if rng.random() < 0.5 else (
            lambda: o.add_sector_constraints(m, {"s": 0.0}, {}))
    other = [k for k in M if k != used]
    name = str(rng.choice(other))
    if name == "convex_objective" and rng.random() < 0.3:
        return name, lambda: o.convex_objective(lambda w: cp.norm(w), weights_sum_to_one=False)
    return name, lambda: M[name](o)


def freeze(ctx):
    rng = ctx.rng
    kind, P, make, M = factory(ctx)
    used = str(rng.choice(list(M)))
    o = make()
    ctx.note(kind=kind, solved=used, problem=P.describe())
    r, err = attempt(lambda: M[used](o))
    if err is not None:
        raise Skip("first solve: " + err)
    before = snapshot(o, kind)
    hist = []
    for _ in range(int(rng.integers(3, 9))):
        op, call = illegal(ctx, o, P, M, used)
        hist.append(op)
        r, err = attempt(call)
        ctx.event("illegal", op=op, error=err)
        ctx.check(err is not None, "freeze-refused", "%s accepted on an object solved with %s" % (op, used), history=list(hist),
                  problem=P.describe())
        watch(ctx, o, kind, before, "freeze", "%s after %s" % (op, used))
        if err is None:
            return
    if used == "convex_objective" and rng.random() < 0.5:
        # another custom objective is another problem too
        r, err = attempt(lambda: o.convex_objective(lambda w: cp.norm(w, 1) + 3 * w[0]))
        ctx.check(err is not None, "freeze-refused", "a second custom objective was accepted", problem=P.describe())
        watch(ctx, o, kind, before, "freeze", "second custom objective")
    ctx.sig("freeze", kind, used, ",".join(sorted(set(hist))))


class Fault:
    """Callable installed at the solver boundary; counts how often it was reached."""

    def __init__(self, rng, mode, from_solve=0, problem_no=None):
        self.rng, self.mode, self.from_solve, self.seen, self.hit = rng, mode, from_solve, 0, 0

    def __call__(self, problem, a, k):
        i = self.seen
        self.seen += 1
        if i < self.from_solve:
            return None
        self.hit += 1
        m = self.mode
        if m == "SolverError":
            raise cp.SolverError("injected")
        if m == "ValueError":
            raise ValueError("injected")
        if m == "ArithmeticError":
            raise ArithmeticError("injected")
        status, fill = m
        if fill == "real":
            with hooks.unmonitored():
                try:
                    cp.Problem.solve.__wrapped__(problem, *a, **k)
                except cp.SolverError:
                    pass
        for v in problem.variables():
            if fill == "none":
                v.save_value(None)
            elif fill == "nan":
                v.save_value(np.full(v.shape, np.nan))
            elif fill == "garbage":
                v.save_value(self.rng.normal(1.0, 1.0, v.shape) if v.shape else np.float64(0.7))
        problem._status = status
        ST.status = status
        val = {"infeasible": np.inf, "unbounded": -np.inf}.get(status.split("_")[0], None)
        problem._value = val
        return val if val is not None else float("nan")


def mode(rng):
    if rng.random() < 0.2:
        return "SolverError"
    return (str(rng.choice(STATUSES)), str(rng.choice(["none", "nan", "garbage", "real"], p=[0.4, 0.15, 0.25, 0.2])))


def faulted(ctx, call, F):
    ST.fault = F
    try:
        return attempt(call)
    except ArithmeticError:
        return None, "arith"
    except (TypeError, AttributeError) as e:
        # unusable solver output must surface as an error; its type is not the claim
        return None, "type:%s" % e
    finally:
        ST.fault = None


def fault(ctx):
    """The very first solve fails."""
    rng = ctx.rng
    kind, P, make, M = factory(ctx)
    used = str(rng.choice(list(M)))
    o = make()
    md = mode(rng)
    F = Fault(rng, md)
    ctx.note(kind=kind, method=used, fault=md, problem=P.describe())
    r, err = faulted(ctx, lambda: M[used](o), F)
    if not F.hit:
        raise Skip("fault not reached: %s" % err)
    ctx.event("fault", mode=md, error=err)
    ctx.check(err is not None, "fault-raises", "%s returned %r although the solver reported %r" % (used, r, md), problem=P.describe())
    ctx.check(o.weights is None, "fault-no-weights", "%s: weights %r stored although the solver reported %r" % (used, o.weights, md))
    ctx.sig("fault", kind, used, md, err)
    if err is not None and err.startswith("opt") is False and isinstance(md, tuple) and md[1] != "none":
        ctx.count("other_error:" + err[:20])
    # the status error is the documented one
    if isinstance(md, tuple):
        ctx.check(err is None or err.startswith("opt") or err.startswith("solver"), "fault-error-type", "status %r surfaced as %s" % (md, err))


def refault(ctx):
    """A solve succeeds, a later one on the same object fails: the earlier portfolio stays."""
    rng = ctx.rng
    kind, P, make, M = factory(ctx)
    par = [m for m in ("efficient_return", "efficient_risk", "max_quadratic_utility") if m in M]
    used = str(rng.choice(par))
    o = make()
    r, err = attempt(lambda: M[used](o))
    if err is not None:
        raise Skip("first solve: " + err)
    for _ in range(int(rng.integers(1, 4))):
        before = snapshot(o, kind)
        md = mode(rng)
        F = Fault(rng, md)
        ctx.note(kind=kind, method=used, fault=md, problem=P.describe())
        r, err = faulted(ctx, lambda: M[used](o), F)
        if not F.hit:
            ctx.count("fault_not_reached")
            continue
        ctx.check(err is not None, "fault-raises", "%s returned %r although the solver reported %r" % (used, r, md), problem=P.describe())
        watch(ctx, o, kind, before, "refault", "a failed %s (%r)" % (used, md))
        ctx.sig("refault", kind, used, md, err)
        if err is not None and rng.random() < 0.6:
            r, err = attempt(lambda: M[used](o))
            ctx.check(err is None or "solver" in err or err.startswith("opt:user"), "recovers", "%s after a failed one: %s" % (used, err))
            if err is None:
                w = P.port(r)
                ctx.check(P.violation(w) <= hooks.tol_now() * 5 * max(1.0, np.abs(w).sum()), "recovered-feasible",
                          "violation %.3g" % P.violation(w))


def failfirst(ctx):
    """The first solve fails; what is added afterwards is refused or takes effect."""
    rng = ctx.rng
    kind, P, make, M = factory(ctx)
    par = [m for m in ("efficient_return", "efficient_risk", "max_quadratic_utility") if m in M]
    used = str(rng.choice(par))
    # one fixed target for every call of this case
    st = ctx.rng.bit_generator.state

    def solve_with(o):
        ctx.rng.bit_generator.state = st
        return M[used](o)

    o = make()
    md = (str(rng.choice(STATUSES)), "none") if rng.random() < 0.7 else "SolverError"
    F = Fault(np.random.default_rng(1), md)
    _, err = faulted(ctx, lambda: solve_with(o), F)
    if not F.hit or err is None:
        raise Skip("fault not reached")
    what = ["objective", "constraint", "sector", "method"][ctx.idx % 4]
    c = float(P.a[0] + 0.01)
    of = pypfopt.objective_functions
    target = np.full(P.n, 1.0 / P.n)
    if what == "objective":
        change = lambda q: q.add_objective(lambda w: 1e3 * cp.sum_squares(w - target))
    elif what == "constraint":
        change = lambda q: q.add_constraint(lambda w: w[0] <= c)
    elif what == "sector":
        change = lambda q: q.add_sector_constraints({P.tk[0]: "s"}, {}, {"s": c})
    else:
        change = None
    ctx.note(kind=kind, method=used, fault=md, change=what, problem=P.describe())
    final = solve_with
    if change is None:
        nm = [m for m in M if m != used and m != "max_sharpe"]
        nm = nm[ctx.idx // 4 % len(nm)]
        if nm == used:
            raise Skip("no other method")
        st2 = np.random.default_rng(ctx.idx).bit_generator.state

        def final(q):
            ctx.rng.bit_generator.state = st2
            return M[nm](q)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, err = attempt(lambda: change(o))
        ctx.check(err is None or err == "inst", "failfirst-refusal", "a change after a failed solve ended with %s" % err)
        if err is not None:
            ctx.sig("failfirst", kind, used, what, "refused")
            return
    r, err = attempt(lambda: final(o))
    ctx.event("changed", change=what, error=err)
    ctx.sig("failfirst", kind, used, what, err)
    if err is not None:
        ctx.check(o.weights is None, "failfirst-no-weights", "weights stored although refused")
        return
    q = make()
    if change is not None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            change(q)
    want, err = attempt(lambda: final(q))
    if err is not None:
        raise Skip("fresh object: " + err)
    a, b = P.port(r), P.port(want)
    if what == "objective":
        ctx.check(np.abs(a - b).max() <= 5e-3, "failfirst-effect", "an objective added after a failed solve was ignored", got=a, fresh=b)
    elif change is not None:
        ctx.check(a[0] <= c + 1e-4, "failfirst-effect", "a limit (%s) added after a failed solve was ignored: %.6g > %.6g" % (what, a[0], c))
    else:
        ctx.check(P.violation(a) <= 1e-4 * max(1, np.abs(a).sum()), "failfirst-effect", "violation %.3g" % P.violation(a))
        risk = ref.vol if kind == "ef" else None
        if kind == "ef" and nm in ("min_volatility", "efficient_return"):
            va, vb = risk(a, P.S), risk(b, P.S)
            ctx.check(abs(va - vb) <= 1e-3 * (0.05 + vb), "failfirst-effect", "%s after a failed %s: risk %.6g, fresh %.6g" % (nm, used, va, vb))


LIMITS = [("CLARABEL", {"max_iter": 2}), ("CLARABEL", {"max_iter": 6}), ("ECOS", {"max_iters": 1}), ("ECOS", {"max_iters": 4}),
          ("SCS", {"max_iters": 2}), ("SCS", {"max_iters": 40}), ("OSQP", {"max_iter": 10}), ("OSQP", {"max_iter": 1}),
          ("CLARABEL", {"time_limit": 1e-9})]


def limits(ctx):
    """Real non-convergence: whatever is returned came with a success status."""
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    P = gen.Problem(rng, convex=False, ncons=int(rng.integers(0, 2)), lo=3)
    solver, opts = LIMITS[int(rng.integers(len(LIMITS)))]
    calls = {"min_volatility": lambda o: o.min_volatility(), "max_quadratic_utility": lambda o: o.max_quadratic_utility(),
             "efficient_risk": lambda o: o.efficient_risk(float(ref.vol(P.a, P.S) * 1.2 + 1e-3)),
             "efficient_return": lambda o: o.efficient_return(float(P.a @ P.mu - 0.02)),
             "max_sharpe": lambda o: o.max_sharpe(risk_free_rate=float(P.a @ P.mu - 0.05))}
    name = str(rng.choice(list(calls)))
    if solver == "OSQP" and name == "efficient_risk":
        solver, opts = "ECOS", {"max_iters": 2}
    o = EfficientFrontier(P.arg_mu, P.arg_cov, weight_bounds=P.arg_bounds, solver=solver, solver_options=dict(opts))
    P.dress(o)
    ctx.note(method=name, solver=solver, options=opts, problem=P.describe())
    seen = []
    real = cp.Problem.solve

    def note(problem, a, k):
        seen.append(problem)
        return None

    ST.fault = note
    try:
        r, err = attempt(lambda: calls[name](o))
    finally:
        ST.fault = None
    if not seen:
        raise Skip("no solve")
    st = seen[-1].status
    ctx.event("limit", status=st, error=err)
    if r is not None:
        ctx.check(st in ("optimal", "optimal_inaccurate"), "limit-status", "%s returned a portfolio with solver status %r" % (name, st),
                  problem=P.describe(), result=dict(r))
    else:
        ctx.check(o.weights is None, "limit-no-weights", "weights stored although %s failed (%s)" % (name, st))
    ctx.sig("limits", name, solver, sorted(opts.items()), st, err)


def nondcp(ctx):
    """Objectives or constraints outside the convex rules are refused."""
    rng = ctx.rng
    kind, P, make, M = factory(ctx)
    o = make()
    n = P.n
    how = str(rng.choice(["concave_obj", "nonconvex_con", "concave_extra", "norm_ge", "eq_norm"]))
    ctx.note(kind=kind, how=how, problem=P.describe())
    if how == "concave_obj":
        call = lambda: o.convex_objective(lambda w: -cp.sum_squares(w))
    elif how == "concave_extra":
        o.add_objective(lambda w: -cp.norm(w))
        k = [m for m in M if m not in ("max_sharpe",)]
        call = lambda: M[str(rng.choice(k))](o)
    else:
        o.add_constraint({"nonconvex_con": lambda w: cp.sum_squares(w) >= 0.01, "norm_ge": lambda w: cp.norm(w) >= 0.01,
                          "eq_norm": lambda w: cp.sum_squares(w) == 0.3}[how])
        call = lambda: M[str(rng.choice(list(M)))](o)
    r, err = attempt(call)
    ctx.check(err is not None, "nondcp-raises", "a non-convex problem (%s) gave a portfolio" % how, problem=P.describe())
    ctx.check(o.weights is None, "nondcp-no-weights", repr(o.weights))
    ctx.sig("nondcp", kind, how, err)


def unbounded(ctx):
    """Objectives without a minimum are refused."""
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    n = int(rng.integers(2, 8))
    S, _ = gen.covariance(rng, n, "factor")
    mu, _ = gen.means(rng, n, "normal")
    if mu.max() - mu.min() < 0.01:
        raise Skip("means too close")
    o = EfficientFrontier(mu, S, weight_bounds=[(None, None)] * n, solver=[None, "CLARABEL", "ECOS"][int(rng.integers(3))])
    r, err = attempt(lambda: o.convex_objective(lambda w: -(mu @ w)))
    if err is None and ST.status in ("optimal", "optimal_inaccurate"):
        ctx.check(True, "unbounded-status")  # the solver itself mistook it for solved
        ctx.count("solver_missed_unbounded")
        return
    ctx.check(err is not None, "unbounded-raises", "an unbounded problem gave %r" % (r,))
    ctx.check(o.weights is None, "unbounded-no-weights", repr(o.weights))
    ctx.sig("unbounded", n, err)


def scipy_fault(ctx):
    """nonconvex_objective: an unsuccessful general-purpose solve never yields weights."""
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    P = gen.Problem(rng, ncons=0, sector=False, lo=2, hi=6, bkind=str(rng.choice(["default", "ls", "list"])))
    o = P.ef()
    prior = rng.random() < 0.5
    if prior:
        r, err = attempt(lambda: o.min_volatility())
        if err:
            raise Skip(err)
    before = snapshot(o, "none") if not prior else snapshot(o, "ef")
    how = str(rng.choice(["inject", "inject_real", "infeasible", "maxiter"]))
    S = P.S
    f = lambda w, S: float(w @ S @ w)
    fired = []
    real = scipy.optimize.minimize

    def fake(*a, **k):
        fired.append(1)
        if how == "inject":
            return scipy.optimize.OptimizeResult(x=rng.normal(0, 1, P.n), success=False, status=8, message="injected", fun=0.0, nit=1)
        res = real(*a, **k)
        res["success"] = False
        res["message"] = "injected"
        return res

    kw = {}
    if how == "infeasible":
        kw["constraints"] = [{"type": "eq", "fun": lambda w: np.sum(w) - 3.0 * P.n}]
    if how.startswith("inject"):
        scipy.optimize.minimize = fake
    elif how == "maxiter":
        def few(*a, **k):
            k["options"] = {"maxiter": 1, "ftol": 1e-16}
            res = real(*a, **k)
            if not res["success"]:
                fired.append(1)
            return res
        scipy.optimize.minimize = few
    try:
        r, err = attempt(lambda: o.nonconvex_objective(f, objective_args=(S,), **kw))
    finally:
        scipy.optimize.minimize = real
    if how != "infeasible" and not fired:
        raise Skip("fault not reached")
    ctx.note(how=how, prior=prior, error=err)
    ctx.check(err is not None, "scipy-raises", "an unsuccessful solve (%s) gave %r" % (how, r))
    after = snapshot(o, "none") if not prior else snapshot(o, "ef")
    w, p = same(before, after)
    ctx.check(w and p, "scipy-keeps", "an unsuccessful solve changed the weights or the report", before=before, after=after)
    ctx.sig("scipy", how, prior, P.n)


def alloc(ctx):
    """The integer programme's solver fails: no allocation."""
    from pypfopt import DiscreteAllocation

    rng = ctx.rng
    n = int(rng.integers(1, 7))
    tk, _ = gen.tickers(rng, n, "random")
    w = dict(zip(tk, rng.dirichlet(np.ones(n))))
    if n > 2 and rng.random() < 0.4:
        w[tk[0]] = -w[tk[0]]
    p = pd.Series(np.exp(rng.normal(3, 1, n)), index=tk)
    da = DiscreteAllocation(w, p, total_portfolio_value=float(rng.choice([1000, 10000])))
    md = mode(rng)
    F = Fault(rng, md, from_solve=int(rng.integers(2)) if any(x < 0 for x in w.values()) else 0)
    r, err = faulted(ctx, lambda: da.lp_portfolio(), F)
    if not F.hit:
        raise Skip("fault not reached")
    ctx.note(fault=md, weights=w)
    ctx.check(err is not None, "alloc-raises", "lp_portfolio returned %r although the solver reported %r" % (r, md))
    a = getattr(da, "allocation", None)
    ctx.check(not a, "alloc-none", "an allocation %r was stored although the solver failed" % (a,))
    ctx.sig("alloc", md, n, err)
