"""P01 Reports: return, volatility and Sharpe of the current weights (monitor_performance judges
every report of the mean-variance, critical-line and hierarchical optimisers)."""

from .common import *

BUDGET = {"quick": {"ef": 3760, "sharpe": 1500, "cla": 1500, "hrp": 1500, "bl": 1500, "alone": 3760},
          "thorough": {"ef": 75200, "sharpe": 30000, "cla": 30000, "hrp": 30000, "bl": 30000, "alone": 75200}}
RULE = ("Each case obtains weights (solved or hand-set, in any label order) on one optimiser or calls the stand-alone report with "
        "weights as mapping, list or array, then compares the reported return, volatility and Sharpe ratio with values "
        "recomputed from inputs and weights.")
MIN = {"chk:perf-sharpe": 100, "chk:alone-sharpe": 80, "chk:bl-sharpe": 40}
ASSUMES = []


def rfs(rng):
    return float(rng.choice([0.0, 0.02, -0.01, 0.05, 0.3]))


def shuffled(rng, tk, w, od=False):
    items = list(zip(tk, w))
    return dict(items[int(i)] for i in rng.permutation(len(items)))


def ask(rng, o, **kw):
    if rng.random() < 0.5:
        kw["risk_free_rate"] = rfs(rng)
    if rng.random() < 0.3:
        kw["verbose"] = True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = o.portfolio_performance(**kw)
        if rng.random() < 0.3:
            r2 = o.portfolio_performance(**kw)
            assert_same = (len(r) == len(r2) and [x is None for x in r] == [x is None for x in r2]
                           and np.array_equal(np.array(r, dtype=float), np.array(r2, dtype=float), equal_nan=True))
            from ..hooks import ST

            ST.ctx.check(assert_same, "perf-repeatable", "%r then %r" % (r, r2))
    return r


def run_case(ctx):
    rng = ctx.rng
    return {"ef": ef, "sharpe": sharpe, "cla": cla, "hrp": hrp, "bl": bl, "alone": alone}[ctx.kind](ctx)


def ef(ctx):
    rng = ctx.rng
    no_mu = rng.random() < 0.1
    neutral = rng.random() < 0.15 and not no_mu
    P = gen.Problem(rng, neutral=neutral, solver="CLARABEL", no_mu=no_mu)
    o = P.ef()
    m = str(rng.choice(["min", "util", "ret", "risk", "set", "set"]))
    if no_mu or (neutral and m == "min"):
        m = "min" if not neutral else "util"
    ctx.note(method=m, problem=P.describe())
    if m == "set":
        w = gen.anchor(rng, P.n, 1.0, rng.random() < 0.5) * float(rng.choice([1, 1, 0.3, 2]))
        o.set_weights(shuffled(rng, P.tk, w))
    else:
        call = {"min": lambda: o.min_volatility(), "util": lambda: o.max_quadratic_utility(market_neutral=neutral),
                "ret": lambda: o.efficient_return(float(P.a @ P.mu) - 0.01, market_neutral=neutral),
                "risk": lambda: o.efficient_risk(ref.vol(P.a, P.S) + 0.02, market_neutral=neutral)}[m]
        r, err = attempt(call)
        if err:
            raise Skip("refused " + err)
    ask(rng, o)
    if rng.random() < 0.4:
        # overwrite with other weights: the report follows
        w = gen.anchor(rng, P.n, 1.0, True)
        o.set_weights(shuffled(rng, P.tk, w))
        ask(rng, o)
    # before any weights there is nothing to report
    if rng.random() < 0.1:
        q = P.ef()
        try:
            q.portfolio_performance()
            ctx.check(False, "perf-without-weights", "a report without weights")
        except ValueError:
            ctx.check(True, "perf-without-weights")


def sharpe(ctx):
    rng = ctx.rng
    P = gen.Problem(rng, solver="CLARABEL")
    rf = float(rng.choice([0.0, 0.01, -0.02, 0.03]))
    o = P.ef()
    if P.a @ P.mu - rf < 0.01:
        rf = float(P.a @ P.mu - 0.02)
    r, err = attempt(lambda: o.max_sharpe(risk_free_rate=rf) if rf or rng.random() < 0.5 else o.max_sharpe())
    if err:
        raise Skip("refused " + err)
    w = P.port(r)
    other = float(rng.choice([rf, 0.0, 0.07]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rep = o.portfolio_performance(risk_free_rate=other) if rng.random() < 0.7 else o.portfolio_performance()
    m, v = float(w @ P.mu), ref.vol(w, P.S)
    if v > 1e-5:
        ctx.close(rep[2], (m - rf) / v, "sharpe-uses-solve-rate", rtol=1e-6, atol=1e-7, rf=rf, asked=other)
    ctx.note(rf=rf, asked=other, problem=P.describe())
    ctx.sig("sharpe", rf, other, P.n)


def cla(ctx):
    from pypfopt import CLA

    rng = ctx.rng
    n = gen.size(rng, 2, 10)
    S, _ = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "diag"])))
    mu, _ = gen.means(rng, n, "normal")
    tk, _ = gen.tickers(rng, n)
    am, _ = gen.as_mu(rng, mu, tk, str(rng.choice(["series", "array", "list"])))
    ac, _ = gen.as_cov(rng, S, tk)
    o = CLA(am, ac, weight_bounds=[(0, 1), (-1, 1)][int(rng.integers(2))])
    getattr(o, str(rng.choice(["min_volatility", "max_sharpe"])))()
    ask(rng, o)
    o.efficient_frontier(points=int(rng.integers(20, 60)))
    ask(rng, o)
    o.min_volatility()
    ask(rng, o)


def hrp(ctx):
    from pypfopt import HRPOpt

    rng = ctx.rng
    n = gen.size(rng, 2, 9)
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "alpha", "int", "lookalike"])))
    R, _ = gen.returns_panel(rng, n, 40, tk)
    if rng.random() < 0.2:
        R = R.mask(rng.random(R.shape) < 0.05)
    S = R.cov() * 252
    o = HRPOpt(R) if rng.random() < 0.65 else HRPOpt(cov_matrix=S)
    if rng.random() < 0.8:
        o.optimize()
    else:
        o.set_weights(shuffled(rng, tk, gen.anchor(rng, n, 1.0, False)))
    kw = {}
    if rng.random() < 0.5:
        kw["frequency"] = int(rng.choice([252, 52, 12]))
    ask(rng, o, **kw)
    ctx.note(n=n, **kw)


def bl(ctx):
    from pypfopt import BlackLittermanModel

    rng = ctx.rng
    n = gen.size(rng, 2, 8)
    S, _ = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "diag"])))
    tk, _ = gen.tickers(rng, n)
    pi = rng.normal(0.08, 0.08, n)
    k = int(rng.integers(1, n + 1))
    views = {tk[int(i)]: float(rng.normal(0.1, 0.1)) for i in rng.permutation(n)[:k]}
    tau = float(rng.choice([0.05, 0.02, 0.5, 1.0]))
    o = BlackLittermanModel(pd.DataFrame(S, tk, tk), pi=pi, absolute_views=views, tau=tau)
    Q = np.array(list(views.values()))
    Pm = np.zeros((k, n))
    for i, t in enumerate(views):
        Pm[i, tk.index(t)] = 1
    om = np.diag(np.diag(tau * Pm @ S @ Pm.T))
    mean, cov = ref.bl_posterior(S, pi, Pm, Q, om, tau)
    if rng.random() < 0.5:
        o.bl_weights(risk_aversion=float(rng.choice([1, 2.5])))
        w = np.asarray(o.weights, float)
    else:
        w = gen.anchor(rng, n, 1.0, rng.random() < 0.5)
        o.set_weights(shuffled(rng, tk, w))
    for _ in range(2):
        rf = rfs(rng)
        rep = o.portfolio_performance(risk_free_rate=rf) if rf else o.portfolio_performance()
        m, v = float(w @ mean), ref.vol(w, cov)
        g = max(1.0, np.abs(w).sum())
        ctx.check(isinstance(rep, tuple) and len(rep) == 3, "perf-shape", repr(rep))
        ctx.close(rep[0], m, "bl-return", rtol=1e-7, atol=1e-8 * g)
        ctx.close(rep[1], v, "bl-vol", rtol=1e-6, atol=1e-9)
        ctx.close(rep[2], (m - rf) / v, "bl-sharpe", rtol=1e-5, atol=1e-6)
    ctx.note(n=n, tau=tau, views=k)
    ctx.sig("bl", n, k, tau)


def alone(ctx):
    from pypfopt.base_optimizer import portfolio_performance

    rng = ctx.rng
    n = gen.size(rng, 1, 12)
    S, ck = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "diag", "block"])))
    mu, _ = gen.means(rng, n)
    u = float(10.0 ** rng.uniform(-5, 2)) if rng.random() < 0.25 else 1.0  # units of return: daily, percent
    mu, S = mu * u, S * u ** 2
    tk, tkd = gen.tickers(rng, n)
    shorts = rng.random() < 0.5
    w = gen.anchor(rng, n, 1.0, shorts) * float(rng.choice([1, 1, 0.5, 3]))
    form = str(rng.choice(["dict", "partial", "list", "array", "extra"]))
    mform = str(rng.choice(["series", "array", "none"], p=[0.5, 0.35, 0.15]))
    cform = str(rng.choice(["frame", "array"]))
    labels = tk if (mform == "series" or cform == "frame") else list(range(n))
    am = {"series": pd.Series(mu, index=tk), "array": mu, "none": None}[mform]
    ac = pd.DataFrame(S, tk, tk) if cform == "frame" else S
    if form in ("dict", "partial", "extra"):
        if mform == "none" and cform == "array":
            raise Skip("no universe to label by")
        if form == "partial" and n > 1:
            drop = int(rng.integers(1, n))
            for i in rng.permutation(n)[:drop]:
                w[int(i)] = 0.0
            arg = {t: x for t, x in shuffled(rng, labels, w).items() if x != 0}
        else:
            arg = shuffled(rng, labels, w)
        if form == "extra":
            arg["not-in-universe"] = 0.25
        if w.sum() == 0 or abs(w.sum()) < 1e-9:
            raise Skip("weights add to zero")
        if rng.random() < 0.3:
            import collections

            arg = collections.OrderedDict(arg)
    else:
        arg = list(w) if form == "list" else np.array(w)
    rf = rfs(rng) * u
    kw = dict(risk_free_rate=rf) if rf or rng.random() < 0.5 else {}
    rep = portfolio_performance(arg, am, ac, **kw) if rng.random() < 0.8 else portfolio_performance(arg, am, ac, True, rf)
    ctx.note(n=n, weights=form, mu=mform, cov=cform, rf=rf)
    v = ref.vol(w, S)
    ctx.check(isinstance(rep, tuple) and len(rep) == 3, "perf-shape", repr(rep))
    ctx.close(rep[1], v, "alone-vol", rtol=1e-7, atol=1e-12 * u, form=form)
    if am is None:
        ctx.check(rep[0] is None and rep[2] is None, "alone-none", repr(rep))
    else:
        m = float(w @ mu)
        ctx.close(rep[0], m, "alone-return", rtol=1e-9, atol=1e-11 * u * max(1, np.abs(w).sum()), form=form)
        ctx.close(rep[2], (m - rf) / v, "alone-sharpe", rtol=1e-6, atol=1e-9, form=form, rf=rf)
    ctx.sig("alone", form, mform, cform, n, tkd, shorts, rf / u)
