"""E02 Price/return conversions; prices and returns are interchangeable for every estimator."""

from .panels import *
from pypfopt import expected_returns, risk_models  # noqa: E402

BUDGET = {"quick": {"convert": 3810, "pseudo": 3050, "same": 4570},
          "thorough": {"convert": 76200, "pseudo": 61000, "same": 91400}}
RULE = ("Each case draws a price or return panel (missing data included), converts it one or both ways, or runs a random estimator from prices "
        "and from the returns of those prices.")
MIN = {"chk:returns": 150, "chk:pseudo": 120, "chk:same": 200}
ASSUMES = ["positive prices"]


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def k_convert(ctx, rng):
    d = Data(rng, form="prices")
    if rng.random() < 0.25:  # collapses and multiplications
        for _ in range(int(rng.integers(1, 4))):
            d.P.iloc[int(rng.integers(d.T)):, int(rng.integers(d.n))] *= 10.0 ** rng.uniform(-3, 3)
        d.R = ref.simple_returns(d.P, d.log)
    ctx.note(**d.describe())
    P = d.P.copy()
    if rng.random() < 0.2:
        P.columns.name = "ticker"
    kw = {"log_returns": d.log} if d.log or rng.random() < 0.3 else {}
    r = quiet(lambda: expected_returns.returns_from_prices(P, **kw))
    want = d.R
    ctx.check(isinstance(r, pd.DataFrame) and list(r.columns) == d.tk, "returns-labels")
    ctx.check(list(r.index) == list(want.index), "returns-dates", "%d rows instead of %d" % (len(r), len(want)))
    ctx.close(r, want, "returns", rtol=1e-10, atol=1e-12, problem=d.describe())
    # a gap never becomes a zero return
    ctx.check((np.isnan(np.asarray(r, float)) == np.isnan(want.to_numpy(float))).all() if r.shape == want.shape else False, "returns-missing")
    ctx.event("conversion", rows=len(r))
    ctx.sig("convert", *d.signature())


def k_pseudo(ctx, rng):
    n = gen.size(rng, 1, 8)
    T = int(rng.choice([1, 2, 3, 20, 100]))
    R, kd = gen.returns_panel(rng, n, T=max(T, 2))
    R = R.iloc[:T]
    log = bool(rng.random() < 0.4)
    if rng.random() < 0.3:  # collapses and multiplications
        for _ in range(int(rng.integers(1, 4))):
            x = 10.0 ** rng.uniform(-3, 3)
            R.iloc[int(rng.integers(T)), int(rng.integers(n))] = np.log(x) if log else x - 1
        kd += "+shock"
    kw = {"log_returns": log} if log or rng.random() < 0.3 else {}
    P = expected_returns.prices_from_returns(R.copy(), **kw)
    ctx.check(list(P.columns) == list(R.columns) and list(P.index) == list(R.index), "pseudo-labels")
    ctx.close(P.iloc[0], np.ones(n), "pseudo-start", rtol=0, atol=0)
    ctx.check((np.asarray(P) > 0).all(), "pseudo-positive")
    g = np.exp(np.cumsum(R.to_numpy()[1:], 0)) if log else np.cumprod(1 + R.to_numpy()[1:], 0)
    ctx.close(P.to_numpy()[1:], g, "pseudo", rtol=1e-9, atol=1e-12)
    back = expected_returns.returns_from_prices(P, **kw)
    ctx.close(back, R.to_numpy()[1:], "pseudo-back", rtol=1e-8, atol=1e-11)
    ctx.sig("pseudo", n, T, log, kd)


def k_same(ctx, rng):
    d = Data(rng, form="prices", n_lo=2)
    if not d.usable or d.n < 2:
        raise Skip("too few observations")
    ctx.note(**d.describe())
    nm = str(rng.choice(["mean_historical_return", "ema_historical_return", "capm_return", "sample_cov", "semicovariance", "exp_cov",
                         "shrunk", "ledoit_wolf", "single_factor", "constant_correlation", "oas"]))
    if nm in ("ledoit_wolf", "single_factor", "constant_correlation", "oas") and d.missing != "none":
        nm = "shrunk"
    kw = {"frequency": d.freq}
    R = quiet(lambda: expected_returns.returns_from_prices(d.P, d.log))
    mk, mr = {}, {}
    if nm == "capm_return" and rng.random() < 0.5:
        M = pd.DataFrame({"m": 100 * np.cumprod(1 + rng.normal(0, 0.01, len(d.P)))}, index=d.P.index)
        mk, mr = {"market_prices": M}, {"market_prices": expected_returns.returns_from_prices(M, d.log)}
    if nm in ("mean_historical_return", "ema_historical_return", "capm_return"):
        kw["compounding"] = bool(rng.random() < 0.5)
        f = getattr(expected_returns, nm)
    elif nm in ("sample_cov", "semicovariance", "exp_cov"):
        f = getattr(risk_models, nm)
    else:
        def f(x, **k):
            e = risk_models.CovarianceShrinkage(x, **k)
            if nm == "shrunk":
                return e.shrunk_covariance(0.4)
            if nm == "oas":
                return e.oracle_approximating()
            return e.ledoit_wolf("constant_variance" if nm == "ledoit_wolf" else nm)
    a = quiet(lambda: f(d.P.copy(), log_returns=d.log, **mk, **kw))
    b = quiet(lambda: f(R.copy(), returns_data=True, **mr, **kw))
    ctx.check(list(a.index) == list(b.index) == d.tk, "same-labels")
    ctx.close(a, np.asarray(b), "same", rtol=1e-8, atol=1e-10 * max(1, np.abs(np.asarray(a)).max()), estimator=nm, problem=d.describe())
    ctx.sig("same", nm, *d.signature(bool(mk)))
