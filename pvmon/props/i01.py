"""I01 Illegal arguments are refused: every documented restriction is approached from both sides; a call
with an illegal value must raise and leave no portfolio, its legal twin must go through."""

from .common import *
from . import alloc
from pypfopt import (BlackLittermanModel, CLA, DiscreteAllocation, EfficientCDaR, EfficientCVaR,  # noqa: E402
                     EfficientFrontier, EfficientSemivariance, HRPOpt, black_litterman, discrete_allocation,
                     expected_returns, plotting, risk_models)
from pypfopt.base_optimizer import portfolio_performance  # noqa: E402

BUDGET = {"quick": {"mean": 500, "panel": 500, "cla": 300, "bl": 700, "alloc": 500, "estimate": 500, "nonfinite": 1200},
          "thorough": {"mean": 10000, "panel": 10000, "cla": 6000, "bl": 14000, "alloc": 10000, "estimate": 10000, "nonfinite": 24000}}
RULE = ("Each case draws a valid problem and then 4-8 documented restrictions; for each, a legal value (its border included) must be "
        "accepted and an illegal one (just outside the border, wrong type, wrong length, unknown name, unknown asset, NaN) must raise, "
        "in the constructor or in the call it is meant for, and leave no weights behind.")
MIN = {"chk:refused": 8000, "chk:accepted": 4000, "chk:no-weights": 1500, "chk:finite-or-refused": 800}
ASSUMES = ["the kind of exception is not judged, only that the call raises one"]

nan, inf = float("nan"), float("inf")
JUNK = ["0.02", None, [0.1], {}, object()]
WORDS = ["nope", "", "sample-cov", "MARKET", "idzorek ", "spectrum", "Default"]


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def go(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def legal(ctx, name, fn):
    """A legal call: only numerical trouble of a solver excuses an exception."""
    try:
        r = go(fn)
    except (cp.SolverError, exceptions.OptimizationError) as e:
        ctx.count("solver_trouble")
        return None
    except Exception as e:
        ctx.check(False, "accepted", "%s: a legal argument was refused (%s: %s)" % (name, type(e).__name__, str(e)[:200]), name=name)
        return None
    ctx.check(True, "accepted")
    return r


def illegal(ctx, name, fn, value=None, obj=None):
    """An illegal call must raise; an optimiser it was made on must be left without weights."""
    try:
        r = go(fn)
    except Exception as e:
        ctx.check(True, "refused")
        ctx.event("refused", what=name, error=type(e).__name__)
        ctx.count("refused:" + name.split()[0])
    except BaseException as e:
        if type(e).__name__ != "PanicException":
            raise
        ctx.check(True, "refused")
    else:
        ctx.check(False, "refused", "%s: illegal argument %.80r accepted, result %.120r" % (name, value, r), name=name, value=repr(value)[:300])
    if obj is not None:
        ctx.check(obj.weights is None, "no-weights", "%s: weights were stored by a refused call" % name, value=repr(value)[:200])


def done(ctx):
    return sorted(k[8:] for k in ctx.counts if k.startswith("refused:"))


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def outside(rng, lo=None, hi=None, lo_open=True, hi_open=True):
    """A number outside an interval, mostly close to its border (the border itself when it is excluded)."""
    c = []
    for s in (1e-9, 1e-4, 0.1, 1.0, 50.0):
        if lo is not None:
            c.append(lo - s)
        if hi is not None:
            c.append(hi + s)
    if lo is not None and lo_open:
        c += [lo, lo]
    if hi is not None and hi_open:
        c += [hi, hi]
    x = pick(rng, c)
    form = int(rng.integers(4))
    if form == 0:
        return np.float64(x)
    if form == 1 and float(x).is_integer():
        return int(x)
    return float(x)


def chosen(rng, entries, k=None):
    k = k or int(rng.integers(4, 9))
    for i in rng.permutation(len(entries))[:k]:
        yield entries[int(i)]


def bad_bounds(rng, n):
    out = [0.5, "01", 3, {0, 1}, {0: 0, 1: 1}]
    for m in (n - 1, n + 1, 2 * n):
        if m not in (1, 2, n):
            out.append([(0, 1)] * m)
            out.append(tuple([(0, 0.9)] * m))
            out.append(np.array([[0, 1.0]] * m))
    if n != 3:
        out.append((0, 0.5, 1))
    m = n + 1
    out.append((np.zeros(m), np.ones(m)))
    if n > 2:
        out.append((np.zeros(n - 1), np.ones(n - 1)))
    return pick(rng, out)


def base(rng, lo=2, hi=8):
    n = int(rng.integers(lo, hi))
    tk = gen.tickers(rng, n)[0]
    S = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "block"])))[0]
    mu = np.abs(gen.means(rng, n)[0]) + 0.03
    return n, tk, mu, S


def mu_form(rng, mu, tk):
    return pick(rng, [pd.Series(mu, tk), list(mu), np.array(mu), np.array(mu).reshape(-1, 1)])


def bad_mu(rng, mu, tk):
    return pick(rng, [dict(zip(tk, mu)), tuple(mu), "mu", 0.1, pd.DataFrame({"mu": mu}, index=tk), {float(x) for x in mu}])


def generic(ctx, rng, make, first, n):
    """Restrictions every optimiser of the efficient-frontier family shares."""
    def not_callable():
        v = pick(rng, [3, None, "w >= 0", [0.1], cp.Variable(n) >= 0, np.ones(n)])
        o = make()
        illegal(ctx, "constraint", lambda: o.add_constraint(v), v, o)
        if rng.random() < 0.5:
            legal(ctx, "constraint", lambda: o.add_constraint(lambda w: w <= 1))
            legal(ctx, "after-constraint", lambda: first(o))

    def bounds():
        b = bad_bounds(rng, n)
        illegal(ctx, "bounds", lambda: first(make(weight_bounds=b)), b)

    def crossed():
        hi = np.full(n, 1.0)
        j = int(rng.integers(n))
        d = float(rng.choice([1e-3, 0.05, 0.5]))
        lo = np.zeros(n)
        lo[j], hi[j] = 0.5 / n + d, 0.5 / n
        b = pick(rng, [list(zip(lo, hi)), (lo, hi), np.stack([lo, hi], 1)]) if n != 2 else (lo, hi)
        o = make(weight_bounds=b)
        illegal(ctx, "crossed-bounds", lambda: first(o), b, o)

    def solver():
        s = pick(rng, ["NOPE", "clarabell", "IPOPT!", ""])
        if s:
            o = make(solver=s)
            illegal(ctx, "solver", lambda: first(o), s, o)

    def objective():
        v = pick(rng, [3, "x", None])
        o = make()
        illegal(ctx, "objective", lambda: (o.add_objective(v), first(o)), v, o)

    return [not_callable, bounds, bounds, crossed, solver, objective]


def k_mean(ctx, rng):
    n, tk, mu, S = base(rng)
    ctx.note(n=n, tickers=tk)
    C = pick(rng, [pd.DataFrame(S, tk, tk), S])

    def make(m="own", c=None, **kw):
        kw.setdefault("solver", "CLARABEL")
        return EfficientFrontier(mu_form(rng, mu, tk) if isinstance(m, str) and m == "own" else m, C if c is None else c, **kw)

    top, low = float(mu.max()), None

    def means():
        v = bad_mu(rng, mu, tk)
        illegal(ctx, "mean-type", lambda: make(m=v), v)
        legal(ctx, "mean-type", lambda: make().min_volatility())

    def no_mean():
        o = make(m=None)
        m = pick(rng, ["max_sharpe", "efficient_return", "performance"])
        if m == "max_sharpe":
            illegal(ctx, "no-mean", lambda: o.max_sharpe(), None, o)
        elif m == "efficient_return":
            illegal(ctx, "no-mean", lambda: o.efficient_return(0.01), None, o)
        else:
            illegal(ctx, "no-mean", lambda: o.max_quadratic_utility(), None, o)

    def cov():
        v = pick(rng, [S.tolist(), None, "S", {}, 0.04, pd.Series(np.diag(S), tk), tuple(map(tuple, S))])
        illegal(ctx, "cov-type", lambda: EfficientFrontier(pd.Series(mu, tk), v).min_volatility(), v)

    def dims():
        m = n + int(rng.choice([-1, 1, 2]))
        m = max(m, 1)
        T = np.eye(m) * 0.04
        v = pick(rng, [T, pd.DataFrame(T), S[:, : n - 1] if n > 1 else T])
        illegal(ctx, "cov-shape", lambda: make(c=v).min_volatility(), v.shape)

    def rf():
        v = pick(rng, ["0.02", None, [0.02], np.array([0.01, 0.02]), {}, "x"])
        o = make()
        illegal(ctx, "risk-free", lambda: o.max_sharpe(risk_free_rate=v), v, o)
        w = pick(rng, [0, 0.01, np.float64(0.02), -0.05])
        legal(ctx, "risk-free", lambda: make().max_sharpe(risk_free_rate=w))

    def rf_high():
        v = top + float(rng.choice([0.0, 1e-6, 0.01, 1]))
        o = make()
        illegal(ctx, "risk-free-high", lambda: o.max_sharpe(risk_free_rate=v), v, o)

    def aversion():
        v = outside(rng, 0)
        o = make()
        illegal(ctx, "aversion", lambda: o.max_quadratic_utility(risk_aversion=v), v, o)
        x = pick(rng, [0.5, 1, 3, np.float64(10), 0.05])
        legal(ctx, "aversion", lambda: make().max_quadratic_utility(risk_aversion=x))

    def vol():
        v = pick(rng, ["0.2", None, [0.2], -0.1, -1e-9, -1, {}])
        o = make()
        illegal(ctx, "target-vol", lambda: o.efficient_risk(v), v, o)
        x = float(np.sqrt(np.diag(S)).max())
        legal(ctx, "target-vol", lambda: make().efficient_risk(pick(rng, [x, np.float64(x), 1 + int(np.ceil(x))])))

    def ret():
        v = pick(rng, ["0.1", None, [0.1], {}, np.array([0.1, 0.2])])
        o = make()
        illegal(ctx, "target-return", lambda: o.efficient_return(v), v, o)
        legal(ctx, "target-return", lambda: make().efficient_return(float(mu.mean())))

    def ret_high():
        v = top + float(rng.choice([1e-3, 0.05, 1]))
        o = make()
        illegal(ctx, "target-return-high", lambda: o.efficient_return(v), v, o)

    def alone():
        v = pick(rng, [None, {"no such asset": 1.0}, {t: 0.0 for t in tk}])
        illegal(ctx, "report", lambda: portfolio_performance(v, pd.Series(mu, tk), S), v)
        legal(ctx, "report", lambda: portfolio_performance(dict(zip(tk, np.ones(n) / n)), pd.Series(mu, tk), pd.DataFrame(S, tk, tk)))

    def plot():
        import matplotlib.pyplot as plt

        v = pick(rng, [HRPOpt(cov_matrix=pd.DataFrame(S, tk, tk)), 3, None, pd.Series(mu, tk)])
        p = pick(rng, ["volatility", "sharpe", "", "Risk", None])
        fig, ax = plt.subplots()
        try:
            if rng.random() < 0.5:
                illegal(ctx, "plot-object", lambda: plotting.plot_efficient_frontier(v, ax=ax, show_assets=False), type(v))
            else:
                illegal(ctx, "plot-param", lambda: plotting.plot_efficient_frontier(
                    make(), ef_param=p, ef_param_range=np.array([0.2, 0.3]), ax=ax, show_assets=False), p)
        finally:
            plt.close(fig)

    for e in chosen(rng, [means, no_mean, cov, dims, rf, rf_high, aversion, vol, ret, ret_high, alone, plot] +
                    generic(ctx, rng, make, lambda o: o.min_volatility(), n)):
        e()
    ctx.sig("mean", n, done(ctx))


def k_panel(ctx, rng):
    kind = pick(rng, ["semi", "cvar", "cdar"])
    cls = {"semi": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}[kind]
    n = int(rng.integers(2, 6))
    tk = gen.tickers(rng, n)[0]
    T = int(rng.choice([12, 25, 40]))
    X = gen.returns_panel(rng, n, T)[0]
    X = np.asarray(X, float)
    mu = X.mean(0) + 0.001
    mu = np.abs(mu) + 1e-4
    R = pd.DataFrame(X, columns=tk)
    ctx.note(kind=kind, n=n, T=T)
    best = {"semi": "min_semivariance", "cvar": "min_cvar", "cdar": "min_cdar"}[kind]

    def make(m="own", r=None, **kw):
        kw.setdefault("solver", "CLARABEL")
        return cls(mu_form(rng, mu, tk) if isinstance(m, str) and m == "own" else m, pick(rng, [R, X]) if r is None else r, **kw)

    def first(o):
        return getattr(o, best)()

    def beta():
        if kind == "semi":
            return aversion()
        v = pick(rng, [outside(rng, 0, 1, lo_open=False), outside(rng, 0, 1, lo_open=False), 95, 1, 1.0, nan, "0.95", None])
        illegal(ctx, "beta", lambda: first(make(beta=v)), v)
        x = pick(rng, [0, 0.0, 0.5, 0.95, np.float64(0.9), 0.99])
        legal(ctx, "beta", lambda: first(make(beta=x)))

    def aversion():
        if kind != "semi":
            return
        v = outside(rng, 0)
        o = make()
        illegal(ctx, "aversion", lambda: o.max_quadratic_utility(risk_aversion=v), v, o)
        legal(ctx, "aversion", lambda: make().max_quadratic_utility(risk_aversion=pick(rng, [1, 0.5, 5.0])))

    def means():
        v = bad_mu(rng, mu, tk)
        illegal(ctx, "mean-type", lambda: make(m=v), v)
        legal(ctx, "mean-type", lambda: first(make()))

    def rtype():
        v = pick(rng, [X.tolist(), R[tk[0]], None, "R", {t: R[t] for t in tk}, 0.1])
        illegal(ctx, "returns-type", lambda: first(cls(pd.Series(mu, tk), v)), v)

    def dims():
        if rng.random() < 0.5 and n > 1:
            v = R.iloc[:, : n - 1]
        else:
            v = pd.concat([R, R.iloc[:, :1].set_axis(["extra"], axis=1)], axis=1)
        v = pick(rng, [v, v.to_numpy()])
        illegal(ctx, "returns-shape", lambda: first(make(r=v)), v.shape)

    def ret():
        v = pick(rng, ["0.1", None, [0.1], {}])
        o = make()
        illegal(ctx, "target-return", lambda: o.efficient_return(v), v, o)
        legal(ctx, "target-return", lambda: make().efficient_return(float(mu.mean())))

    def ret_high():
        v = float(mu.max()) * float(rng.choice([1.01, 2, 50]))
        o = make()
        illegal(ctx, "target-return-high", lambda: o.efficient_return(v), v, o)

    def ret_negative():
        if kind == "semi":
            v = float(rng.choice([-1e-9, -0.01, -1]))
            o = make()
            illegal(ctx, "target-return-negative", lambda: o.efficient_return(v), v, o)

    def risk():
        v = pick(rng, ["0.2", None, [0.2, 0.3], {}] + ([-1e-9, -0.1, -1] if kind == "semi" else [-10.0, -5]))
        o = make()
        illegal(ctx, "target-risk", lambda: o.efficient_risk(v), v, o)
        legal(ctx, "target-risk", lambda: make().efficient_risk(pick(rng, [5.0, 3, np.float64(2)])))

    def absent():
        o = make()
        calls = {"min_volatility": lambda: o.min_volatility(), "max_sharpe": lambda: o.max_sharpe()}
        if kind != "semi":
            calls["max_quadratic_utility"] = lambda: o.max_quadratic_utility()
            calls["set_weights"] = lambda: o.set_weights(dict(zip(tk, np.ones(n) / n)))
        m = pick(rng, sorted(calls))
        illegal(ctx, "absent-" + m, calls[m], m, o)

    def no_mean():
        o = make(m=None)
        legal(ctx, "no-mean", lambda: first(o))
        o2 = make(m=None)
        illegal(ctx, "no-mean", lambda: o2.efficient_return(0.001), None, o2)

    for e in chosen(rng, [beta, beta, aversion, means, rtype, dims, ret, ret_high, ret_negative, risk, absent, no_mean] + generic(ctx, rng, make, first, n)):
        e()
    ctx.sig("panel", kind, n, done(ctx))


def k_cla(ctx, rng):
    n, tk, mu, S = base(rng)
    ctx.note(n=n)
    m = pick(rng, ["max_sharpe", "min_volatility", "efficient_frontier"])

    def call(o):
        return getattr(o, m)()

    def cla_bounds():
        b = pick(rng, [(0, 0.9 / n), (1.1 / n, 1), 0.5, (np.zeros(n + 1), np.ones(n + 1)), [(0, 0.5 / n)] * n if n != 2 else (0, 0.4)])
        illegal(ctx, "cla-bounds", lambda: call(CLA(pd.Series(mu, tk), S, weight_bounds=b)), b)
        b2 = pick(rng, [(0, 1), (-1, 1), (0, min(1, 1.5 / n)), (np.zeros(n), np.ones(n))])
        legal(ctx, "cla-bounds", lambda: call(CLA(pd.Series(mu, tk), S, weight_bounds=b2)))

    def cla_mean():
        v = pick(rng, [None, 0.1])
        illegal(ctx, "cla-mean", lambda: call(CLA(v, S)), v)

    def cla_dims():
        v = np.eye(max(n - 1, 1)) * 0.04
        illegal(ctx, "cla-shape", lambda: call(CLA(pd.Series(mu, tk), v)), v.shape)

    def cla_set():
        o = CLA(pd.Series(mu, tk), S)
        illegal(ctx, "cla-set", lambda: o.set_weights(dict(zip(tk, np.ones(n) / n))), None, o)

    def hrp_none():
        illegal(ctx, "hrp-nothing", lambda: HRPOpt())
        R = gen.returns_panel(rng, n, 30)[0]
        v = pick(rng, [np.asarray(R, float), [[0.01] * n], "R", {}, pd.Series(mu, tk)])
        illegal(ctx, "hrp-returns", lambda: HRPOpt(v), type(v))

    def hrp_link():
        tk = ["H%d" % i for i in range(n)]
        o = HRPOpt(cov_matrix=pd.DataFrame(S, tk, tk))
        v = pick(rng, ["nope", "", "Single", "wards", None, 3])
        illegal(ctx, "hrp-linkage", lambda: o.optimize(linkage_method=v), v, o)
        x = pick(rng, ["single", "complete", "average", "weighted", "centroid", "median", "ward"])
        legal(ctx, "hrp-linkage", lambda: HRPOpt(cov_matrix=pd.DataFrame(S, tk, tk)).optimize(linkage_method=x))

    for e in chosen(rng, [cla_bounds, cla_bounds, cla_mean, cla_dims, cla_set, hrp_none, hrp_link], 5):
        e()
    ctx.sig("cla", m, n, done(ctx))


def k_bl(ctx, rng):
    n, tk, mu, S = base(rng, 2, 9)
    C = pd.DataFrame(S, tk, tk)
    K = int(rng.integers(1, n + 1))
    on = [tk[int(i)] for i in rng.permutation(n)[:K]]
    views = {t: float(rng.normal(0.05, 0.05)) for t in on}
    pi = pick(rng, [pd.Series(mu, tk), np.array(mu), np.array(mu).reshape(-1, 1)])
    ctx.note(n=n, K=K)

    def make(**kw):
        a = dict(cov_matrix=C, pi=pi, absolute_views=views)
        a.update(kw)
        return BlackLittermanModel(**{k: v for k, v in a.items() if not (isinstance(v, str) and v == "<omit>")})

    def both(name, bad, good=None, use=lambda b: b.bl_returns()):
        illegal(ctx, name, lambda: use(make(**bad)), bad)
        if good is not None:
            legal(ctx, name, lambda: use(make(**good)))

    P = np.zeros((K, n))
    for i, t in enumerate(on):
        P[i, tk.index(t)] = 1
    Q = np.array([views[t] for t in on])

    def tau():
        both("tau", dict(tau=pick(rng, [outside(rng, 0, 1, True, False), outside(rng, 0, 1, True, False), "0.05", None])),
             dict(tau=pick(rng, [1, 1.0, 1e-6, 0.5, np.float64(0.02)])))

    def aversion():
        both("bl-aversion", dict(risk_aversion=pick(rng, [outside(rng, 0), outside(rng, 0), "1", None])),
             dict(risk_aversion=pick(rng, [1e-3, 1, 2.5, 30])))

    def implied():
        v = outside(rng, 0)
        b = make()
        illegal(ctx, "implied-aversion", lambda: b.bl_weights(v), v, b)
        illegal(ctx, "implied-aversion", lambda: make().optimize(v), v)
        legal(ctx, "implied-aversion", lambda: make().bl_weights(pick(rng, [0.1, 1, np.float64(3), None])))

    def conf_range():
        c = rng.uniform(0.05, 0.95, K)
        g = pick(rng, [list(c), c, c.reshape(-1, 1), pd.Series(c), tuple(c)])
        b = c.copy()
        b[int(rng.integers(K))] = float(outside(rng, 0, 1, False, False))
        b = pick(rng, [list(b), b, b.reshape(-1, 1), pd.Series(b), tuple(b)])
        both("confidence-range", dict(omega="idzorek", view_confidences=b), dict(omega="idzorek", view_confidences=g))

    def conf_length():
        m = K + int(rng.choice([-1, 1, 2, 7]))
        c = rng.uniform(0.1, 0.9, max(m, 0))
        c = pick(rng, [list(c), c, c.reshape(-1, 1), pd.Series(c), tuple(c)])
        both("confidence-length", dict(omega="idzorek", view_confidences=c),
             dict(omega="idzorek", view_confidences=pick(rng, [[0] * K, np.ones(K), [0.0] * K, [1] * K])))

    def conf_type():
        both("confidence-type", dict(omega="idzorek", view_confidences=pick(rng, [None, ["high"] * K, "<omit>", "half", {}])))

    def view_asset():
        bad = dict(views)
        bad[pick(rng, ["no such", 10 ** 6, ("A",), -1])] = 0.1
        if any(k in tk for k in bad if k not in views):
            return
        both("view-asset", dict(absolute_views=pick(rng, [bad, pd.Series(bad)])), {})

    def view_type():
        both("view-type", dict(absolute_views=pick(rng, [list(views.items()), np.array(list(views.values())), "A up", 3, pd.DataFrame([views])])),
             dict(absolute_views=pick(rng, [views, pd.Series(views)])))

    def q_type():
        both("q-type", dict(absolute_views="<omit>", Q=pick(rng, [list(Q), tuple(Q), "q", 0.1, None]), P=P),
             dict(absolute_views="<omit>", Q=pick(rng, [Q, Q.reshape(-1, 1), pd.DataFrame(Q)]), P=pick(rng, [P, pd.DataFrame(P)])))

    def p_type():
        both("p-type", dict(absolute_views="<omit>", Q=Q, P=pick(rng, [P.tolist(), "p", 1.0, {}])))

    def p_shape():
        v = pick(rng, [P[:, : n - 1], np.hstack([P, P[:, :1]]), np.vstack([P, P[:1]])] + ([P[: K - 1]] if K > 1 else []) + ([P.T] if K != n else []))
        both("p-shape", dict(absolute_views="<omit>", Q=Q, P=v))

    def p_missing():
        if K < n:
            both("p-missing", dict(absolute_views="<omit>", Q=Q, P="<omit>"),
                 dict(absolute_views="<omit>", Q=np.array(mu), P="<omit>"))

    def omega():
        w = np.diag(rng.uniform(0.001, 0.02, K))
        v = pick(rng, [w.tolist(), 0.1, {}, "idz", "nope", "Default", np.eye(K + 1), pd.DataFrame(np.eye(K + 2)), np.full(K, 0.01), np.full((K, K + 1), 0.01)])
        both("omega", dict(omega=v), dict(omega=pick(rng, [w, pd.DataFrame(w), "default", None])))

    def prior():
        v = pick(rng, ["markt", "", "Equal", list(mu), tuple(mu), 0.1, np.array(mu)[: n - 1], np.append(mu, 0.1), pd.Series(mu[: n - 1]), {}])
        both("prior", dict(pi=v), dict(pi=pick(rng, ["equal", None, pd.Series(mu, tk)])))

    def market():
        caps = {t: float(rng.uniform(1, 1000)) for t in tk}
        short = {t: c for t, c in list(caps.items())[:-1]}
        both("market", dict(pi="market", market_caps=pick(rng, ["<omit>", short, pd.Series(short)])),
             dict(pi="market", market_caps=pick(rng, [caps, pd.Series(caps)]), risk_aversion=2))

    def cov():
        both("bl-cov", dict(cov_matrix=pick(rng, [S.tolist(), None, "S", {}, 0.04, np.eye(n + 1), np.eye(max(n - 1, 1)), pd.DataFrame(np.eye(n + 2))])),
             dict(cov_matrix=C))

    def prices():
        v = pick(rng, [[100.0, 101, 99], np.array([100.0, 101, 99]), (1, 2, 3), "SPY", None, {0: 1.0}])
        illegal(ctx, "market-prices", lambda: black_litterman.market_implied_risk_aversion(v), v)
        s = pd.Series(100 * np.cumprod(1 + rng.normal(0.001, 0.01, 50)))
        legal(ctx, "market-prices", lambda: black_litterman.market_implied_risk_aversion(pick(rng, [s, s.to_frame()])))

    for e in chosen(rng, [tau, tau, aversion, aversion, implied, implied, conf_range, conf_range, conf_length, conf_length, conf_type, view_asset,
                          view_type, q_type, p_type, p_shape, p_missing, omega, prior, market, cov, prices]):
        e()
    ctx.sig("bl", n, K, done(ctx))


def k_alloc(ctx, rng):
    n = int(rng.integers(2, 7))
    tk = gen.tickers(rng, n)[0]
    w = dict(zip(tk, [float(x) for x in rng.dirichlet(np.ones(n))]))
    pr = pd.Series(rng.uniform(5, 80, n), tk)
    V = float(rng.uniform(2000, 20000))
    how = pick(rng, ["greedy_portfolio", "lp_portfolio"])
    ctx.note(n=n, method=how)
    shorts = rng.random() < 0.4
    if shorts:
        w[tk[0]] = -w[tk[0]] - 0.05

    def both(name, bad, good=None):
        a = dict(weights=w, latest_prices=pr, total_portfolio_value=V)
        if shorts:
            a["short_ratio"] = 0.3
        illegal(ctx, name, lambda: getattr(DiscreteAllocation(**dict(a, **bad)), how)(), bad)
        if good is not None:
            legal(ctx, name, lambda: getattr(DiscreteAllocation(**dict(a, **good)), how)())

    def weights():
        both("alloc-weights", dict(weights=pick(rng, [list(w.items()), list(w.values()), np.array(list(w.values())), pd.Series(w), "w", None, 1.0])), {})

    def weight_nan():
        v = dict(w)
        v[pick(rng, tk)] = pick(rng, [nan, np.nan, np.float64("nan")])
        both("alloc-weight-nan", dict(weights=v))

    def prices():
        both("alloc-prices", dict(latest_prices=pick(rng, [pr.to_dict(), list(pr), pr.to_numpy(), pr.to_frame(), None, 10.0])), {})

    def price_nan():
        v = pr.copy()
        v.iloc[int(rng.integers(n))] = nan
        if rng.random() < 0.3:  # a NaN price of an asset that is not held
            v = pd.concat([pr, pd.Series({"unheld": nan})])
        both("alloc-price-nan", dict(latest_prices=v))

    def price_missing():
        j = int(rng.integers(n))
        both("alloc-price-missing", dict(latest_prices=pr.drop(tk[j])), dict(latest_prices=pd.concat([pr, pd.Series({"more": 3.0})])))

    def value():
        both("alloc-value", dict(total_portfolio_value=pick(rng, [outside(rng, 0), outside(rng, 0), -V, -1, 0])),
             dict(total_portfolio_value=pick(rng, [V, int(V), np.float64(V), 10 ** 5])))

    def ratio():
        both("alloc-ratio", dict(short_ratio=pick(rng, [outside(rng, 0, None, False), outside(rng, 0, None, False), -0.3, -1])),
             dict(short_ratio=pick(rng, [0.3, 0.5, None, 1, 2.0])))

    def solver():
        a = DiscreteAllocation(w, pr, total_portfolio_value=V)
        v = pick(rng, ["NOPE", "CLARABEL", "OSQP"])
        illegal(ctx, "alloc-solver", lambda: a.lp_portfolio(solver=v), v)

    def latest():
        F = pd.DataFrame(rng.uniform(1, 5, (4, n)), columns=tk)
        v = pick(rng, [F.to_numpy(), F[tk[0]], F.to_numpy().tolist(), F.to_dict(), None])
        illegal(ctx, "latest-prices", lambda: discrete_allocation.get_latest_prices(v), type(v))
        legal(ctx, "latest-prices", lambda: discrete_allocation.get_latest_prices(F))

    for e in chosen(rng, [weights, weight_nan, prices, price_nan, price_missing, value, value, ratio, ratio, solver, latest], 6):
        e()
    ctx.sig("alloc", how, n, shorts, done(ctx))


def k_estimate(ctx, rng):
    n = int(rng.integers(2, 7))
    P, _ = gen.price_panel(rng, n, T=int(rng.choice([12, 40])))
    ctx.note(n=n)
    cov_names = ["sample_cov", "semicovariance", "semivariance", "exp_cov", "ledoit_wolf", "ledoit_wolf_constant_variance",
                 "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating"]
    ret_names = ["mean_historical_return", "ema_historical_return", "capm_return"]

    def scramble(x):
        return pick(rng, [x.upper(), x + "s", x[:-1], x + " ", x.replace("_", "-"), x.replace("_", ""), "_" + x, x.title()] + WORDS)

    def risk():
        x = pick(rng, cov_names)
        v = scramble(x)
        if v not in cov_names:
            illegal(ctx, "risk-method", lambda: risk_models.risk_matrix(P, method=v), v)
        legal(ctx, "risk-method", lambda: risk_models.risk_matrix(P, method=x))

    def rets():
        x = pick(rng, ret_names)
        v = scramble(x)
        if v not in ret_names:
            illegal(ctx, "return-method", lambda: expected_returns.return_model(P, method=v), v)
        legal(ctx, "return-method", lambda: expected_returns.return_model(P, method=x))

    def target():
        x = pick(rng, ["constant_variance", "single_factor", "constant_correlation"])
        v = scramble(x)
        c = risk_models.CovarianceShrinkage(P)
        illegal(ctx, "shrinkage-target", lambda: c.ledoit_wolf(shrinkage_target=v), v)
        legal(ctx, "shrinkage-target", lambda: c.ledoit_wolf(shrinkage_target=x))

    def repair():
        A = rng.normal(0, 1, (n, n))
        A = A + A.T
        q = np.linalg.eigvalsh(A)
        A = A - (q[0] + 0.3 * (q[-1] - q[0])) * np.eye(n)  # indefinite for certain
        A = A * float(rng.choice([1, 1e-4, 1e3]))
        v = pick(rng, ["Spectral", "nope", "", None, "diagonal", "spectral ", 3])
        F = pick(rng, [pd.DataFrame(A), A])
        illegal(ctx, "repair-method", lambda: risk_models.fix_nonpositive_semidefinite(F, fix_method=v), v)
        legal(ctx, "repair-method", lambda: risk_models.fix_nonpositive_semidefinite(pd.DataFrame(A), fix_method=pick(rng, ["spectral", "diag"])))

    for e in chosen(rng, [risk, rets, target, repair], 4):
        e()
    ctx.sig("estimate", n, done(ctx))


def k_nonfinite(ctx, rng):
    """A missing or infinite number in the input never turns into a portfolio with NaNs in it."""
    n, tk, mu, S = base(rng, 3, 7)
    T = 30
    R = pd.DataFrame(np.asarray(gen.returns_panel(rng, n, T)[0], float), columns=tk)
    bad = float(rng.choice([nan, inf, -inf], p=[0.6, 0.2, 0.2]))
    where = pick(rng, ["mu", "mu", "var", "cov", "row", "returns"])
    j, k = [int(i) for i in rng.permutation(n)[:2]]
    if where == "mu":
        mu[j] = bad
    elif where == "var":
        S[j, j] = bad
    elif where == "cov":
        S[j, k] = S[k, j] = bad
    elif where == "row":
        S[j, :] = S[:, j] = bad
    else:
        R.iloc[int(rng.integers(T)), j] = bad
    kind = pick(rng, ["ef", "ef", "cla", "semi", "cvar", "cdar", "hrp-cov", "hrp"])
    sol = pick(rng, [None, None, "OSQP", "CLARABEL", "ECOS", "SCS"])
    ms, C = pick(rng, [pd.Series(mu, tk), np.array(mu)]), pick(rng, [pd.DataFrame(S, tk, tk), S])
    small = float(np.nanmin(np.where(np.isfinite(mu), mu, nan)))
    m = None

    def call():
        nonlocal m
        if kind == "ef":
            o = EfficientFrontier(ms, C, solver=sol, weight_bounds=pick(rng, [(0, 1), (-1, 1)]))
            m = pick(rng, ["max_quadratic_utility", "max_quadratic_utility", "min_volatility", "max_sharpe", "efficient_risk", "efficient_return"])
            return getattr(o, m)(*({"efficient_risk": [0.3], "efficient_return": [small]}.get(m, [])))
        if kind == "cla":
            m = pick(rng, ["max_sharpe", "min_volatility"])
            return getattr(CLA(ms, C), m)()
        if kind == "hrp-cov":
            return HRPOpt(cov_matrix=pd.DataFrame(S, tk, tk)).optimize()
        if kind == "hrp":
            return HRPOpt(R).optimize()
        cls, best = {"semi": (EfficientSemivariance, "min_semivariance"), "cvar": (EfficientCVaR, "min_cvar"), "cdar": (EfficientCDaR, "min_cdar")}[kind]
        o = cls(ms, R, solver=None if sol == "OSQP" and kind != "semi" else sol)
        m = pick(rng, [best, "efficient_risk", "efficient_return"] + (["max_quadratic_utility"] * 2 if kind == "semi" else []))
        return getattr(o, m)(*({"efficient_risk": [5.0], "efficient_return": [small / 252]}.get(m, [])))

    ctx.note(kind=kind, where=where, value=repr(bad), solver=sol)
    try:
        r = go(call)
    except Exception as e:
        ctx.check(True, "finite-or-refused")
        ctx.event("refused", what="nonfinite", error=type(e).__name__)
    except BaseException as e:
        if type(e).__name__ != "PanicException":
            raise
        ctx.check(True, "finite-or-refused")
    else:
        w = np.array(list(r.values()), float)
        ctx.check(np.isfinite(w).all() and abs(w.sum() - 1) < 1e-2, "finite-or-refused",
                  "%s.%s with %r in %s returned %r" % (kind, m, bad, where, dict(r)), solver=sol)
        ctx.count("nonfinite_ignored")
    ctx.sig("nonfinite", kind, where, m, repr(bad), sol)
