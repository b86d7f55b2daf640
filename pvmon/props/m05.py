"""M05 Bound notations and sector limits: every way of writing the same limits gives the same
optimum, equal to the optimum of the limits themselves (two-sided), for every universe size."""

from .common import *

BUDGET = {"quick": {"notation": 380, "small": 380, "none": 210, "cla": 240, "risk": 86, "sector": 340, "nonconvex": 86},
          "thorough": {"notation": 7600, "small": 7600, "none": 4200, "cla": 4800, "risk": 1700, "sector": 6800, "nonconvex": 1700}}
RULE = ("Each case draws one set of limits, writes it in every applicable notation (pair, list/tuple/array of pairs, pair of "
        "arrays, integer or float entries, omitted limits), solves each and compares the optimum with an independent reference "
        "under exactly those limits; sector cases do the same with the limit on exactly the mapped assets.")
MIN = {"chk:same-optimum": 200, "chk:sector-optimum": 60}
ASSUMES = ["CLARABEL solves the reference problem"]


def notations(rng, lb, ub, uniform, none_ok=False):
    """[(name, argument)] denoting exactly (lb, ub) with finite limits."""
    n = len(lb)
    f = lambda a: [float(x) for x in a]
    out = [("list", [(l, u) for l, u in zip(f(lb), f(ub))]),
           ("tuple_of_tuples", tuple((l, u) for l, u in zip(f(lb), f(ub)))),
           ("list_of_lists", [[l, u] for l, u in zip(f(lb), f(ub))]),
           ("nd", np.column_stack([lb, ub]).astype(float)),
           ("pair_arrays", (np.array(lb, float), np.array(ub, float))),
           ("list_arrays", [np.array(lb, float), np.array(ub, float)])]
    if uniform:
        out += [("pair", (float(lb[0]), float(ub[0]))), ("pair_list", [float(lb[0]), float(ub[0])])]
    if np.all(lb == np.round(lb)) and np.all(ub == np.round(ub)):
        out += [("int_list", [(int(l), int(u)) for l, u in zip(lb, ub)]),
                ("int_arrays", (np.array(lb, int), np.array(ub, int)))]
        if uniform:
            out.append(("int_pair", (int(lb[0]), int(ub[0]))))
    if none_ok and uniform:
        if lb[0] == -1:
            out.append(("none_lower", (None, float(ub[0]))))
        if ub[0] == 1:
            out.append(("none_upper", (float(lb[0]), None)))
        if lb[0] == -1 and ub[0] == 1:
            out.append(("none_both", (None, None)))
    if none_ok and (np.any(lb == -1) or np.any(ub == 1)):
        # pair of arrays: an omitted entry is fully short/long
        out.append(("arrays_nan", (np.where(lb == -1, np.nan, lb), np.where(ub == 1, np.nan, ub))))
    return out


def limits(rng, n):
    mode = str(rng.choice(["unit", "ls", "uniform", "perasset", "int", "wide"]))
    if mode == "unit":
        return np.zeros(n), np.ones(n), True
    if mode == "ls":
        return -np.ones(n), np.ones(n), True
    if mode == "uniform":
        lo = float(np.round(rng.uniform(-0.5, 1 / n - 0.05), 2))
        hi = float(np.round(1 / n + rng.uniform(0.05, 0.6), 2))
        if rng.random() < 0.3:
            lo = -1.0
        elif rng.random() < 0.3:
            hi = 1.0
        return np.full(n, lo), np.full(n, max(hi, 1 / n + 0.02)), True
    if mode == "wide":  # leverage beyond one, also with a common floor or cap of either sign
        lo = float(rng.choice([-3, -2, -1.25, -0.5, 0]))
        return np.full(n, lo), np.full(n, float(rng.choice([1, 1.5, 2, 3]))), True
    if mode == "int":
        lb = -rng.integers(0, 2, n).astype(float)
        ub = rng.integers(1, 3, n).astype(float)
        return lb, ub, bool(np.ptp(lb) == 0 and np.ptp(ub) == 0)
    a = gen.anchor(rng, n, 1.0, rng.random() < 0.5)
    lb = np.round(a - rng.uniform(0.03, 0.5, n), 2)
    ub = np.round(a + rng.uniform(0.03, 0.5, n), 2)
    if rng.random() < 0.3:
        lb[rng.integers(n)] = -1.0
    if rng.random() < 0.3:
        i = rng.integers(n)
        ub[i] = max(1.0, ub[i]) if ub[i] > 1 else 1.0
    lb = np.minimum(lb, a - 0.02)
    return lb, ub, False


def universe(rng, n):
    S, ck = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "block"])))
    mu, _ = gen.means(rng, n, str(rng.choice(["normal", "wide"])))
    tk, _ = gen.tickers(rng, n)
    return S, mu, tk


def value(mu, S, w, d):
    return float(-(mu @ w) + 0.5 * d * (w @ S @ w)) if d else ref.variance(w, S)


def reference(mu, S, lb, ub, d, extra=()):
    n = len(mu)
    x = cp.Variable(n)
    L = ref.psd_root(S)
    obj = (-(mu @ x) + 0.5 * d * cp.sum_squares(L @ x)) if d else cp.sum_squares(L @ x)
    st, w = ref.solve(obj, ref.base_cons(x, lb, ub, 1.0) + [c(x) for c in extra], x)
    if st != "optimal":
        raise Skip("reference " + st)
    return w


def run_case(ctx):
    rng = ctx.rng
    k = ctx.kind
    if k in ("notation", "small"):
        n = int(rng.integers(1, 4)) if k == "small" else gen.size(rng, 3, 9)
        return notation(ctx, n)
    return {"none": none_case, "cla": cla, "risk": risk, "sector": sector, "nonconvex": nonconvex}[k](ctx)


def compare(ctx, name, r, tk, mu, S, lb, ub, d, wref, key="same-optimum", problem=""):
    if set(r) != set(tk):
        ctx.check(False, "labels", list(r))
        return
    w = np.array([r[t] for t in tk], float)
    tol = max(hooks.tol_now(), 1e-6)
    v = max(float(np.max(lb - w)), float(np.max(w - ub)), abs(w.sum() - 1))
    ctx.check(v <= 5 * tol * max(1, np.abs(w).sum()), "limits-enforced", "notation %s: limits violated by %.4g" % (name, v), w=w, lb=lb, ub=ub)
    got, want = value(mu, S, w, d), value(mu, S, wref, d)
    sc = abs(want) + 0.02 * float(np.diag(S).max()) + (0.02 * np.abs(mu).max() if d else 0)
    ctx.event("optimum", notation=name, got=got, want=want)
    ctx.check(abs(got - want) <= 2e-5 * sc, key, "notation %s: optimum %.9g, limits give %.9g" % (name, got, want), w=w, wref=wref,
              lb=lb, ub=ub, problem=problem)


def notation(ctx, n):
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    S, mu, tk = universe(rng, n)
    lb, ub, uniform = limits(rng, n)
    if lb.sum() > 1 - 1e-6 or ub.sum() < 1 - 1e-9:
        raise Skip("empty")
    d = float(rng.choice([0, 1, 3, 10]))
    wref = reference(mu, S, lb, ub, d)
    forms = notations(rng, lb, ub, uniform, none_ok=True)
    for name, arg in forms:
        e = EfficientFrontier(pd.Series(mu, index=tk), S, weight_bounds=arg, solver="CLARABEL")
        r, err = attempt(lambda: e.max_quadratic_utility(risk_aversion=d) if d else e.min_volatility())
        if not ctx.check(err is None, "notation-refused", "notation %s refused: %s" % (name, err), lb=lb, ub=ub, arg=repr(arg)):
            continue
        compare(ctx, name, r, tk, mu, S, lb, ub, d, wref)
        ctx.sig(name, n, uniform, d > 0)
    ctx.note(n=n, lb=lb, ub=ub, risk_aversion=d)


def none_case(ctx):
    """Per-asset lists with omitted entries mean no limit on that side."""
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    n = int(rng.integers(1, 7))
    S, mu, tk = universe(rng, n)
    lb, ub, _ = limits(rng, n)
    lo, hi = [], []
    for i in range(n):
        lo.append(None if rng.random() < 0.4 else float(lb[i]))
        hi.append(None if rng.random() < 0.4 else float(ub[i]))
    L = np.array([-np.inf if x is None else x for x in lo])
    U = np.array([np.inf if x is None else x for x in hi])
    d = float(rng.choice([0, 0.3, 1, 3]))  # strictly convex: bounded whatever the limits
    if U.sum() < 1 or L.sum() > 1:
        raise Skip("empty")
    wref = reference(mu, S, L, U, d)
    args = [("list_none", list(zip(lo, hi))), ("tuple_none", tuple(zip(lo, hi))),
            ("list_nan", [(np.nan if a is None else a, np.nan if b is None else b) for a, b in zip(lo, hi)]),
            ("nd_nan", np.array([[np.nan if a is None else a, np.nan if b is None else b] for a, b in zip(lo, hi)])),
            ("list_inf", [(-np.inf if a is None else a, np.inf if b is None else b) for a, b in zip(lo, hi)])]
    if n == 1:
        args = args[:1] + args[3:]
    for name, arg in args:
        e = EfficientFrontier(pd.Series(mu, index=tk), S, weight_bounds=arg, solver="CLARABEL")
        r, err = attempt(lambda: e.max_quadratic_utility(risk_aversion=d) if d else e.min_volatility())
        if not ctx.check(err is None, "notation-refused", "notation %s refused: %s" % (name, err), arg=repr(arg)):
            continue
        compare(ctx, name, r, tk, mu, S, L, U, d, wref)
        ctx.sig(name, n, d > 0, int(np.isinf(L).sum()), int(np.isinf(U).sum()), bool((np.abs(wref) > 1.001).any()))
    ctx.note(n=n, lower=lo, upper=hi)


def cla(ctx):
    from pypfopt import CLA

    rng = ctx.rng
    n = int(rng.integers(2, 4)) if rng.random() < 0.5 else int(rng.integers(3, 8))
    S, mu, tk = universe(rng, n)
    lb, ub, uniform = limits(rng, n)
    if lb.sum() > 1 - 1e-3 or ub.sum() < 1 + 1e-3 or np.any(ub - lb < 1e-3):
        raise Skip("degenerate")
    wref = reference(mu, S, lb, ub, 0)
    for name, arg in notations(rng, lb, ub, uniform):
        c = CLA(pd.Series(mu, index=tk), S, weight_bounds=arg)
        r = c.min_volatility()
        compare(ctx, "CLA/" + name, r, tk, mu, S, lb, ub, 0, wref)
        ctx.sig("cla", name, n)


def risk(ctx):
    """The same for the semivariance, CVaR and CDaR optimisers (limits judged on the optimum)."""
    from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance

    rng = ctx.rng
    n = int(rng.integers(1, 5))
    lb, ub, uniform = limits(rng, n)
    if lb.sum() > 1 - 1e-6 or ub.sum() < 1 - 1e-9:
        raise Skip("empty")
    R, _ = gen.returns_panel(rng, n, 30)
    V = R.to_numpy()
    mu = R.mean() * 252
    kind = str(rng.choice(["semi", "cvar", "cdar"]))
    cls, m, f = {"semi": (EfficientSemivariance, "min_semivariance", lambda w: ref.semidev(w, V)),
                 "cvar": (EfficientCVaR, "min_cvar", lambda w: ref.cvar(w, V, 0.95)),
                 "cdar": (EfficientCDaR, "min_cdar", lambda w: ref.cdar(w, V, 0.95))}[kind]
    vals = []
    for name, arg in notations(rng, lb, ub, uniform, none_ok=True):
        e = cls(mu, R, weight_bounds=arg, solver="CLARABEL")
        r, err = attempt(lambda: getattr(e, m)())
        if not ctx.check(err is None, "notation-refused", "%s notation %s refused: %s" % (kind, name, err), lb=lb, ub=ub):
            continue
        w = np.array([r[t] for t in R.columns], float)
        v = max(float(np.max(lb - w)), float(np.max(w - ub)), abs(w.sum() - 1))
        ctx.check(v <= 2e-5 * max(1, np.abs(w).sum()), "limits-enforced", "%s notation %s: limits violated by %.4g" % (kind, name, v), w=w, lb=lb, ub=ub)
        vals.append((name, f(w)))
        ctx.sig("risk", kind, name, n)
    if vals:
        v = np.array([x for _, x in vals])
        ctx.check(np.ptp(v) <= 2e-4 * abs(v).max() + 2e-5, "same-optimum", "%s: optima differ between notations: %r" % (kind, vals), lb=lb, ub=ub)


def sector(ctx):
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    n = gen.size(rng, 2, 10)
    S, mu, tk = universe(rng, n)
    lb, ub, uniform = limits(rng, n)
    if lb.sum() > 1 - 1e-6 or ub.sum() < 1 - 1e-9:
        raise Skip("empty")
    x = cp.Variable(n)
    # an anchor inside the limits: minimum-norm portfolio
    st, a = ref.solve(cp.sum_squares(x - 1 / n), ref.base_cons(x, lb, ub, 1.0), x)
    if a is None:
        raise Skip("no anchor")
    mapper, lo, hi = gen.sectors(rng, a, tk)
    if rng.random() < 0.15 and np.all(lb <= 0):
        # an excluded sector: at most zero
        k = [s for s in dict.fromkeys(mapper.values()) if s not in lo]
        if k:
            hi[k[int(rng.integers(len(k)))]] = 0.0
            x = cp.Variable(n)
            A, b = gen.sector_cons(tk, mapper, lo, hi)
            st, _ = ref.solve(cp.sum_squares(x), ref.base_cons(x, lb, ub, 1.0) + [A @ x <= b - 1e-6 * (b != 0)], x)
            if st != "optimal":
                raise Skip("the exclusion leaves nothing")
    A, b = gen.sector_cons(tk, mapper, lo, hi)
    d = float(rng.choice([0, 1, 3]))
    extra = [lambda w: A @ w <= b] if len(b) else []
    wref = reference(mu, S, lb, ub, d, extra)
    e = EfficientFrontier(pd.Series(mu, index=tk), S, weight_bounds=list(zip(lb, ub)) if rng.random() < 0.7 else (lb, ub) if n != 2 else
                          [(float(l), float(u)) for l, u in zip(lb, ub)], solver="CLARABEL")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < 0.3 and len(hi) > 1:
            # the limits given in two calls
            k = list(hi)
            e.add_sector_constraints(mapper, {}, {k[0]: hi[k[0]]})
            e.add_sector_constraints(mapper, lo, {q: hi[q] for q in k[1:]})
        else:
            e.add_sector_constraints(mapper, lo, hi)
    r, err = attempt(lambda: e.max_quadratic_utility(risk_aversion=d) if d else e.min_volatility())
    if not ctx.check(err is None, "sector-refused", "sector limits refused: %s" % err, mapper=mapper, lower=lo, upper=hi):
        return
    w = np.array([r[t] for t in tk], float)
    if len(b):
        v = float(np.max(A @ w - b))
        ctx.check(v <= 1e-5, "sector-limit", "sector limit violated by %.4g" % v, mapper=mapper, lower=lo, upper=hi, w=dict(r))
    compare(ctx, "sector", r, tk, mu, S, lb, ub, d, wref, "sector-optimum", problem=repr((mapper, lo, hi))[:400])
    free = reference(mu, S, lb, ub, d)
    ctx.sig("sector", n, len(lo), len(hi), len(set(mapper.values())), bool(np.abs(free - wref).max() > 1e-3))
    if np.abs(free - wref).max() > 1e-3:
        ctx.count("sector_binding")
    ctx.note(mapper=mapper, lower=lo, upper=hi)


def nonconvex(ctx):
    """The scipy backend sees the same limits."""
    from pypfopt import EfficientFrontier

    rng = ctx.rng
    n = int(rng.integers(1, 6))
    S, mu, tk = universe(rng, n)
    lb, ub, uniform = limits(rng, n)
    a = np.full(n, 1 / n)
    if np.any(lb > a) or np.any(ub < a):
        raise Skip("default start outside the limits")
    d = float(rng.choice([2, 5]))
    wref = reference(mu, S, lb, ub, d)
    for name, arg in notations(rng, lb, ub, uniform, none_ok=True):
        e = EfficientFrontier(pd.Series(mu, index=tk), S, weight_bounds=arg)
        r = e.nonconvex_objective(lambda w: float(-(mu @ w) + 0.5 * d * (w @ S @ w)), objective_args=())
        w = np.array([r[t] for t in tk], float)
        v = max(float(np.max(lb - w)), float(np.max(w - ub)), abs(w.sum() - 1))
        ctx.check(v <= 1e-6, "limits-enforced", "nonconvex, notation %s: limits violated by %.4g" % (name, v), w=w, lb=lb, ub=ub)
        got, want = value(mu, S, w, d), value(mu, S, wref, d)
        ctx.check(got <= want + 1e-3 * (abs(want) + 0.02), "same-optimum", "nonconvex, notation %s: %.8g vs %.8g" % (name, got, want), w=w, wref=wref)
        ctx.sig("nonconvex", name, n)
