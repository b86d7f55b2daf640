"""E01 Return estimators against their definitions."""

from .panels import *
from pypfopt import expected_returns  # noqa: E402

BUDGET = {"quick": {"mean": 2710, "ema": 2170, "capm": 3250, "market": 1350},
          "thorough": {"mean": 54200, "ema": 43400, "capm": 65000, "market": 27000}}
RULE = ("Each case draws a price panel (late listings, delistings, gaps, empty rows), form, frequency, compounding and log flags, a market "
        "series (other dates, other order, Series or frame) or none, and compares the estimate with its definition asset by asset.")
MIN = {"chk:mean": 150, "chk:ema": 120, "chk:capm": 150, "chk:market-itself": 50}
ASSUMES = ["at least three overlapping observations for each asset; a market table is a one-column frame when returns are given"]

FN = {"mean": "mean_historical_return", "ema": "ema_historical_return", "capm": "capm_return"}


def run_case(ctx):
    rng = ctx.rng
    d = Data(rng)
    ctx.note(**d.describe())
    if not d.usable:
        raise Skip("too few observations")
    globals()["k_" + ctx.kind](ctx, rng, d)


def options(rng, d):
    kw = d.kw()
    comp = True
    if rng.random() < 0.6:
        comp = bool(rng.random() < 0.4)
        kw["compounding"] = comp
    return kw, comp


def call(ctx, rng, name, arg, kw):
    if rng.random() < 0.4:
        extra = {} if name == "mean_historical_return" and rng.random() < 0.5 else {"method": name}
        return quiet(lambda: expected_returns.return_model(arg, **extra, **kw)), "dispatcher"
    return quiet(lambda: getattr(expected_returns, name)(arg, **kw)), "direct"


def labels(ctx, r, d, tag):
    ctx.check(isinstance(r, pd.Series) and list(r.index) == d.labels, tag + "-labels", "%r for %r" % (list(getattr(r, "index", []))[:6], d.labels[:6]))


def growth(x, comp, f):
    x = x[~np.isnan(x)]
    if comp:
        if (x <= -0.999).any():
            raise Skip("log returns below -1 cannot be compounded")
        return float(np.exp(np.log1p(x).sum() * f / len(x)) - 1)
    return float(x.mean() * f)


def k_mean(ctx, rng, d):
    kw, comp = options(rng, d)
    r, how = call(ctx, rng, FN["mean"], d.arg(), kw)
    labels(ctx, r, d, "mean")
    X = d.R.to_numpy(float)
    want = [growth(X[:, j], comp, d.freq) for j in range(d.n)]
    ctx.close(r, want, "mean", rtol=1e-8, atol=1e-10, problem=d.describe(), compounding=comp)
    if comp and not d.log and d.form != "returns":
        # what the first and last price say
        for j, t in enumerate(d.labels):
            p = d.P.iloc[:, j].to_numpy()
            i = np.flatnonzero(~np.isnan(p))
            if len(i) == i[-1] - i[0] + 1:
                ctx.close(float(r.iloc[j]), (p[i[-1]] / p[i[0]]) ** (d.freq / (len(i) - 1)) - 1, "growth", rtol=1e-7, atol=1e-9)
    ctx.event("estimate", how=how)
    ctx.sig("mean", *d.signature(how, comp))


def k_ema(ctx, rng, d):
    kw, comp = options(rng, d)
    span = 500
    if rng.random() < 0.75:
        span = int(rng.choice([1, 2, 3, 5, 20, 60, 180, 1000, 10**6]))
        kw["span"] = span
    r, how = call(ctx, rng, FN["ema"], d.arg(), kw)
    labels(ctx, r, d, "ema")
    X = d.R.to_numpy(float)
    m = np.array([ref.ew_mean(X[:, j], span) for j in range(d.n)])
    want = (1 + m) ** d.freq - 1 if comp else m * d.freq
    ctx.close(r, want, "ema", rtol=1e-7, atol=1e-9, problem=d.describe(), compounding=comp, span=span)
    ctx.sig("ema", *d.signature(how, comp, span))


def market_of(rng, d):
    """A market series: prices over a possibly different set of dates."""
    P = d.P
    k = str(rng.choice(["same", "longer", "shorter", "gaps"]))
    idx = P.index
    if k == "longer":
        idx = pd.bdate_range(P.index[0] - pd.Timedelta(days=20), P.index[-1] + pd.Timedelta(days=20))
    r = rng.normal(0.0005, 0.01, len(idx))
    base = d.P.pct_change(fill_method=None).mean(axis=1).reindex(idx).fillna(0).to_numpy() * float(rng.uniform(-0.3, 1))
    M = pd.DataFrame({[0, "SPY", "mkt", "market"][int(rng.integers(4))]: 100 * np.cumprod(1 + r + base)}, index=idx)
    if k == "shorter":
        M = M.iloc[int(rng.integers(0, len(idx) // 3)): len(idx) - int(rng.integers(0, len(idx) // 3))]
    if k == "gaps":
        M = M.drop(M.index[[int(i) for i in rng.permutation(np.arange(1, len(M)))[: max(1, len(M) // 10)]]])
    return M, k


def k_capm(ctx, rng, d):
    kw, comp = options(rng, d)
    rf = float(rng.choice([0.0, 0.02, -0.01, 0.1]))
    if rf or rng.random() < 0.3:
        kw["risk_free_rate"] = rf
    if rng.random() < 0.08 and d.form != "array":
        # an asset may bear any name
        ren = {d.tk[int(rng.integers(d.n))]: "mkt"}
        d.P, d.R = d.P.rename(columns=ren), d.R.rename(columns=ren)
        d.tk = list(d.P.columns)
    X = d.R.to_numpy(float)
    if rng.random() < 0.35:
        m = np.array([x[~np.isnan(x)].mean() for x in X])
        how_m = "average"
    else:
        M, how_m = market_of(rng, d)
        MR = ref.simple_returns(M, d.log)
        if d.form == "array":
            if how_m != "same":
                M = M.iloc[: len(d.P)] if len(M) >= len(d.P) else M
            MR = ref.simple_returns(M, d.log)
            mm = MR.iloc[:, 0].to_numpy()
            m = np.full(len(X), np.nan)
            k = min(len(mm), len(X))
            m[:k] = mm[:k]
            kw["market_prices"] = M.to_numpy()
        else:
            m = MR.iloc[:, 0].reindex(d.R.index).to_numpy(float)
            if d.form == "returns":
                kw["market_prices"] = MR.copy()
            else:
                kw["market_prices"] = M.iloc[:, 0].copy() if rng.random() < 0.3 else M.copy()
    ok = ~np.isnan(m)
    both = (~np.isnan(X) & ok[:, None]).sum(0)
    if both.min() < 3 or np.var(m[ok]) < 1e-14:
        raise Skip("market does not overlap")
    r, how = call(ctx, rng, FN["capm"], d.arg(), kw)
    labels(ctx, r, d, "capm")
    mk = growth(m, comp, d.freq)
    v = np.var(m[ok], ddof=1)
    want = []
    for j in range(d.n):
        b = ok & ~np.isnan(X[:, j])
        cv = ((X[b, j] - X[b, j].mean()) * (m[b] - m[b].mean())).sum() / (b.sum() - 1)
        want.append(rf + cv / v * (mk - rf))
    ctx.close(r, want, "capm", rtol=1e-6, atol=1e-9 * max(1, abs(mk) * 10), problem=d.describe(), market=how_m, rf=rf, compounding=comp)
    ctx.sig("capm", *d.signature(how, how_m, comp, rf != 0))


def k_market(ctx, rng, d):
    """The market itself, priced as an asset, earns the market's return; the estimate is affine in the risk-free rate."""
    if d.form == "array":
        d.form = "prices"
    kw, comp = options(rng, d)
    t = d.tk[0]
    col = d.P[[t]] if d.form == "prices" else d.R[[t]]
    if d.missing == "none":
        r = quiet(lambda: expected_returns.capm_return(d.arg(), market_prices=col.copy(), **kw))
        m = quiet(lambda: expected_returns.mean_historical_return(d.arg(), **{k: v for k, v in kw.items()}))
        ctx.close(float(r[t]), float(m[t]), "market-itself", rtol=1e-8, atol=1e-10, problem=d.describe())
        r2 = quiet(lambda: expected_returns.capm_return(d.arg(), market_prices=col.copy(), risk_free_rate=0.07, **kw))
        ctx.close(float(r2[t]), float(m[t]), "market-itself", rtol=1e-8, atol=1e-10, problem=d.describe())
    a = np.asarray(quiet(lambda: expected_returns.capm_return(d.arg(), risk_free_rate=0.0, **kw)))
    b = np.asarray(quiet(lambda: expected_returns.capm_return(d.arg(), risk_free_rate=0.04, **kw)))
    c = np.asarray(quiet(lambda: expected_returns.capm_return(d.arg(), risk_free_rate=0.02, **kw)))
    ctx.close(c, (a + b) / 2, "affine", rtol=1e-8, atol=1e-10)
    if d.missing == "none":
        # the equal-weighted average of the assets is the market
        X = d.R.to_numpy(float).mean(1)
        ctx.close(float(a.mean()), growth(X, comp, d.freq), "average-is-market", rtol=1e-6, atol=1e-9)
    try:
        expected_returns.return_model(d.P, method="nothing")
        ctx.check(False, "unknown-model")
    except NotImplementedError:
        ctx.check(True, "unknown-model")
    ctx.sig("market", *d.signature(comp))
