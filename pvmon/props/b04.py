"""B04 Market-implied prior, risk aversion and implied weights."""

from .bl import *

BUDGET = {"quick": {"prior": 5440, "aversion": 4350, "weights": 6530, "roundtrip": 3260, "hand": 2180, "duplicate": 900},
          "thorough": {"prior": 108800, "aversion": 87000, "weights": 130600, "roundtrip": 65200, "hand": 43600, "duplicate": 18000}}
RULE = ("Each case computes the market-implied prior, market-implied risk aversion or posterior-implied weights from random data in "
        "varied containers and label orders and compares with closed forms, round trips from capitalisation weights, or evaluates "
        "hand-set weights; duplicated assets (a singular covariance) must still give a solution of the equation.")
MIN = {"chk:prior": 60, "chk:aversion": 60, "chk:implied": 80, "chk:recovered": 40}
ASSUMES = ["for the implied weights: a positive-definite covariance, or exact duplicates of assets with a prior they do not contradict"]


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def k_prior(ctx, rng):
    from pypfopt.black_litterman import market_implied_prior_returns

    n = gen.size(rng, 1, 12)
    S, _ = gen.covariance(rng, n)
    tk, tkd = gen.tickers(rng, n)
    caps = rng.uniform(0.1, 500, n) * float(rng.choice([1e9, 1.0, 1e-4]))
    d = float(rng.choice([1, 2.5, 0.3, 4]))
    rf = float(rng.choice([0.0, 0.02, -0.01]))
    frame = rng.random() < 0.75
    it = list(zip(tk if frame else range(n), caps))
    if frame:
        it = [it[int(i)] for i in rng.permutation(n)]
    mc = dict(it) if rng.random() < 0.5 else pd.Series([x for _, x in it], index=[t for t, _ in it])
    C = pd.DataFrame(S, tk, tk) if frame else S
    kw = {} if rf == 0 and rng.random() < 0.6 else dict(risk_free_rate=rf)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = market_implied_prior_returns(mc, d, C, **kw)
    want = d * S @ (caps / caps.sum()) + rf
    if frame:
        ctx.check(isinstance(r, pd.Series) and set(r.index) == set(tk), "prior-labels")
        got = np.array([r[t] for t in tk])
        ctx.check(list(r.index) == list(tk), "prior-order", "labels %r" % (list(r.index)[:6],))
    else:
        got = np.asarray(r, float)
    ctx.close(got, want, "prior", rtol=1e-9, atol=1e-12, form=type(mc).__name__)
    # through the model
    from pypfopt import BlackLittermanModel

    k = {tk[0] if frame else 0: 0.1}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = BlackLittermanModel(C, pi="market", market_caps=mc, risk_aversion=d, absolute_views=k,
                                omega=np.array([[1e12]]), **kw)
    ctx.close(np.asarray(m.bl_returns()), want, "prior-model", rtol=1e-7, atol=1e-9)
    ctx.sig("prior", n, frame, type(mc).__name__, rf, tkd)


def k_aversion(ctx, rng):
    from pypfopt.black_litterman import market_implied_risk_aversion

    T = int(rng.choice([20, 60, 250, 800]))
    r = rng.normal(0.0005, 0.01, T)
    p = 100 * np.cumprod(1 + r)
    idx = pd.bdate_range("2012-01-02", periods=T)
    s = pd.Series(p, index=idx, name=[None, "SPY"][int(rng.integers(2))])
    nan = rng.random() < 0.3
    rr = p[1:] / p[:-1] - 1
    form = "frame" if rng.random() < 0.3 else "series"
    arg = s.to_frame("SPY") if form == "frame" else s
    f = int(rng.choice([252, 52, 12]))
    rf = float(rng.choice([0.0, 0.02, -0.01]))
    kw = {}
    if f != 252 or rng.random() < 0.3:
        kw["frequency"] = f
    if rf or rng.random() < 0.3:
        kw["risk_free_rate"] = rf
    d = market_implied_risk_aversion(arg, **kw)
    want = (rr.mean() * f - rf) / (rr.var(ddof=1) * f)
    ctx.check(np.ndim(d) == 0, "aversion-scalar", repr(d)[:100])
    ctx.close(float(d), want, "aversion", rtol=1e-8, atol=1e-9, **kw)
    ctx.event("aversion", got=float(d), want=want)
    ctx.sig("aversion", T, form, f, rf)
    if rng.random() < 0.2:
        try:
            market_implied_risk_aversion(list(p))
            ctx.check(False, "aversion-type")
        except TypeError:
            ctx.check(True, "aversion-type")


def k_weights(ctx, rng):
    b = BL(rng)
    ctx.note(**b.describe())
    if not b.weights_defined():
        raise Skip("ill-conditioned, or weights summing to almost nothing")
    m = b.model()
    for ra in [None, float(rng.choice([0.5, 1.0, 3.0]))]:
        r = (m.bl_weights() if ra is None else m.bl_weights(ra)) if rng.random() < 0.7 else m.optimize(ra)
        ctx.check(list(r) == list(b.tk), "weights-labels", "%r" % (list(r)[:6],))
        w = np.array(list(r.values()))
        mean = b.posterior()[0]
        raw = np.linalg.solve(b.S, mean)
        want = raw / raw.sum()
        g = max(1.0, np.abs(want).max())
        ctx.check(abs(w.sum() - 1) <= 1e-8 * g, "weights-sum", w.sum())
        ctx.close(w, want, "implied", rtol=1e-5, atol=1e-6 * g, problem=b.describe())
        ctx.close(np.asarray(m.weights, float), w, "weights-stored", rtol=1e-12, atol=1e-14)
        ctx.close(np.asarray(m.posterior_rets, float), mean, "weights-posterior", rtol=1e-6, atol=1e-8)
        # proportional to the solution of (risk aversion x covariance) w = returns
        a = m.risk_aversion if ra is None else ra
        y = a * b.S @ w
        k = float(y @ mean) / float(mean @ mean)
        ctx.close(y, k * mean, "proportional", rtol=1e-5, atol=1e-6 * np.abs(y).max())
    ctx.sig("w", *b.signature())


def k_roundtrip(ctx, rng):
    n = gen.size(rng, 2, 10)
    b = BL(rng, n=n, pi="market", omega="diag")
    kw = dict(b.kw)
    kw.pop("risk_free_rate", None)
    if np.linalg.cond(b.S) > 1e6:
        raise Skip("ill-conditioned")
    from pypfopt import BlackLittermanModel

    kw["omega"] = np.diag(np.full(b.K, 1e10))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = BlackLittermanModel(b.arg_cov, **kw)
    r = m.bl_weights()
    ctx.close([r[t] for t in b.tk], b.caps / b.caps.sum(), "recovered", rtol=1e-4, atol=1e-6, problem=b.describe())
    ctx.sig("roundtrip", *b.signature())


def k_hand(ctx, rng):
    b = BL(rng)
    if b.gain() > 1e8:
        raise Skip("ill-conditioned")
    m = b.model()
    w = gen.anchor(rng, b.n, 1.0, rng.random() < 0.5)
    it = list(zip(b.tk, w))
    m.set_weights(dict(it[int(i)] for i in rng.permutation(b.n)))
    rf = float(rng.choice([0.0, 0.02]))
    p = m.portfolio_performance(risk_free_rate=rf)
    mean, cov = b.posterior()
    r, v = float(w @ mean), ref.vol(w, cov)
    ctx.close(p, [r, v, (r - rf) / v], "hand-set", rtol=1e-6, atol=1e-7, problem=b.describe())
    c = m.clean_weights()
    ctx.close([c[t] for t in b.tk], np.round(np.where(np.abs(w) < 1e-4, 0, w), 5), "hand-clean", rtol=0, atol=1e-12)
    ctx.sig("hand", *b.signature())


def k_duplicate(ctx, rng):
    """Some assets occur twice: the covariance is singular, the weights solve the equation all the same."""
    from pypfopt import BlackLittermanModel

    k = int(rng.integers(1, 6))
    groups = [int(rng.integers(1, 4)) for _ in range(k)]
    if max(groups) == 1:
        groups[int(rng.integers(k))] = 2
    of = np.repeat(np.arange(k), groups)
    of = of[rng.permutation(len(of))]
    n = len(of)
    base = np.diag(rng.integers(1, 17, k) / 64.0)
    if k > 1 and rng.random() < 0.5:
        f = rng.integers(-2, 3, k) / 16.0
        base = base + np.outer(f, f)
    S = base[np.ix_(of, of)]
    tk, tkd = gen.tickers(rng, n)
    caps = rng.integers(1, 64, n).astype(float)
    d = float(rng.choice([0.5, 1, 2, 4]))
    if rng.random() < 0.5:
        kw = dict(pi="market", market_caps=dict(zip(tk, caps)), risk_aversion=d)
    else:
        kw = dict(pi=pd.Series(S @ (caps / caps.sum()), index=tk), risk_aversion=d)
    i = int(rng.integers(n))
    kw["absolute_views"] = {tk[i]: float(rng.choice([0.05, 0.2, 0.5]))}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = BlackLittermanModel(pd.DataFrame(S, tk, tk), **kw)
        ra = None if rng.random() < 0.5 else float(rng.choice([0.5, 2.0]))
        r = m.bl_weights() if ra is None else m.bl_weights(ra)
    w = np.array([r[t] for t in tk])
    mean = np.asarray(m.bl_returns(), float)
    raw = np.linalg.pinv(S) @ mean
    if abs(raw.sum()) < 1e-3 * np.abs(raw).sum() or np.abs(S @ raw - mean).max() > 1e-10:
        raise Skip("weights summing to almost nothing")
    g = max(1.0, np.abs(w).max())
    ctx.check(np.all(np.isfinite(w)) and abs(w.sum() - 1) <= 1e-8 * g, "duplicate-sum", w.sum(), S=S, w=w)
    want = mean / raw.sum()
    ctx.close(S @ w, want, "duplicate-implied", rtol=1e-7, atol=1e-8 * g, S=S, w=w, mean=mean)
    # what the group as a whole gets is determined
    if np.linalg.matrix_rank(base) == k:
        tot = np.array([w[of == j].sum() for j in range(k)])
        ctx.close(tot, np.array([raw[of == j].sum() for j in range(k)]) / raw.sum(), "duplicate-group", rtol=1e-6, atol=1e-8 * g, S=S, w=w)
    ctx.sig("dup", k, n, "pi" if "market_caps" not in kw else "market", ra is None, tkd)
