"""I02 The container does not matter: the same numbers in another container, memory layout, numeric type or
with other row labels give the same answer as a plain labelled float table."""

import collections

from .common import *
from pypfopt import (BlackLittermanModel, CLA, DiscreteAllocation, EfficientCDaR, EfficientCVaR,  # noqa: E402
                     EfficientFrontier, EfficientSemivariance, HRPOpt, black_litterman, discrete_allocation, expected_returns,
                     objective_functions, risk_models)
from pypfopt.base_optimizer import portfolio_performance  # noqa: E402

BUDGET = {"quick": {"ef": 700, "panel": 500, "cla": 400, "hrp": 400, "bl": 900, "estimate": 1200, "alloc": 600, "report": 700},
          "thorough": {"ef": 14000, "panel": 10000, "cla": 8000, "hrp": 8000, "bl": 18000, "estimate": 24000, "alloc": 12000, "report": 14000}}
RULE = ("Each case draws numbers (a third of the time whole numbers, so that integer containers can carry them), calls one entry point once with "
        "plain labelled float tables and 2-3 times with other containers (lists, arrays, columns, integer types, Fortran order, strided, reversed "
        "or read-only memory, other indexes, named axes) and compares values and labels.")
MIN = {"chk:same-values": 8000, "chk:labels": 5000}
ASSUMES = ["whole-number inputs are exactly representable in every numeric type used", "the solver is deterministic up to its tolerance"]


def run_case(ctx):
    ctx.whole = ctx.rng.random() < 0.35
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def go(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def layout(rng, A, whole=False):
    """The same numbers in another memory layout or type: (array, description)."""
    A = np.asarray(A)
    how = pick(rng, ["C", "F", "readonly", "strided", "reversed", "view"] + (["int64", "int32"] * 3 if whole else []))
    if how == "C":
        B = np.ascontiguousarray(A)
    elif how == "F":
        B = np.asfortranarray(A)
    elif how == "readonly":
        B = A.copy()
        B.setflags(write=False)
    elif how == "strided":
        big = np.full(tuple(2 * s for s in A.shape), 7.7)
        sl = tuple(slice(None, None, 2) for _ in A.shape)
        big[sl] = A
        B = big[sl]
    elif how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in A.shape)
        B = np.ascontiguousarray(A[sl])[sl]
    elif how == "view":
        big = np.full(tuple(s + 2 for s in A.shape), -3.3)
        sl = tuple(slice(1, -1) for _ in A.shape)
        big[sl] = A
        B = big[sl]
    else:
        B = np.asarray(np.rint(A), how)
    return B, how


def square(rng, S, tk, whole, labelled=None):
    """A covariance-like matrix: frame (labels matter) or array."""
    B, how = layout(rng, S, whole)
    if labelled is None:
        labelled = rng.random() < 0.6
    if not labelled:
        return B, "array-" + how
    F = pd.DataFrame(B, index=list(tk), columns=list(tk), copy=False)
    if rng.random() < 0.3:
        F.index.name, F.columns.name = "asset", pick(rng, ["asset", "other", None])
        how += "-named"
    return F, "frame-" + how


def vector(rng, v, tk, whole, forms=("series", "list", "array", "column", "row")):
    f = pick(rng, list(forms))
    B, how = layout(rng, v, whole)
    if f == "series":
        s = pd.Series(B, index=list(tk), name=pick(rng, [None, "x", 0]), copy=False)
        if rng.random() < 0.3:
            s.index.name = "ticker"
        return s, "series-" + how
    if f == "list":
        z = B.tolist()
        if rng.random() < 0.5:  # whole numbers written without a decimal point
            z = [int(x) if float(x).is_integer() else x for x in z]
            how += "-literal"
        return z, "list-" + how
    if f == "column":
        return B.reshape(-1, 1), "column-" + how
    if f == "row":
        return B.reshape(1, -1), "row-" + how
    return B, "array-" + how


def rows(rng, T):
    k = pick(rng, ["dates", "tz", "range", "strings", "period", "ints", "dup"])
    d = pd.bdate_range("2015-01-02", periods=T)
    if k == "tz":
        return d.tz_localize("UTC"), k
    if k == "range":
        return pd.RangeIndex(T), k
    if k == "strings":
        return pd.Index(["d%04d" % i for i in range(T)]), k
    if k == "period":
        return pd.period_range("2015-01", periods=T, freq="D"), k
    if k == "ints":
        return pd.Index(np.arange(T) * 3 + 7, name="t"), k
    if k == "dup":
        return pd.Index([0] * T), k
    return d, k


def table(rng, X, tk, whole, labelled=None):
    B, how = layout(rng, X, whole)
    if labelled is None:
        labelled = rng.random() < 0.7
    if not labelled:
        return B, "array-" + how
    ix, k = rows(rng, len(X))
    if rng.random() < 0.25:  # column-wise built frame (one block per column)
        F = pd.DataFrame(collections.OrderedDict((i, pd.Series(B[:, i], index=ix)) for i in range(B.shape[1]))) if k != "dup" else pd.DataFrame(B.copy(), index=ix)
        F.columns = list(tk)
        how += "-blocks"
    else:
        F = pd.DataFrame(B, index=ix, columns=list(tk), copy=False)
    if rng.random() < 0.2:
        F.columns.name = "asset"
    return F, "frame-%s-%s" % (how, k)


def values(r):
    if isinstance(r, dict):
        return np.array(list(r.values()), float)
    if isinstance(r, (tuple, list)):
        return np.array([np.nan if x is None else x for x in r], float)
    return np.asarray(r, float)


def same(ctx, want, got, tag, how, tol=1e-9):
    a, b = values(want).ravel(), values(got).ravel()
    s = max(np.abs(a[np.isfinite(a)]).max() if np.isfinite(a).any() else 1.0, 1e-300)
    ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol * s, equal_nan=True), "same-values",
              "%s with %s: %s instead of %s" % (tag, how, np.array2string(b[:6], precision=8), np.array2string(a[:6], precision=8)), how=how)


def labels(ctx, got, want, tag, how):
    ctx.check(list(got) == list(want), "labels", "%s with %s: labels %r, expected %r" % (tag, how, list(got)[:6], list(want)[:6]))


def numbers(ctx, rng, n):
    """Means and covariance, sometimes whole numbers."""
    if ctx.whole:
        A = rng.integers(-4, 5, (n, n + 3))
        S = (A @ A.T + np.diag(rng.integers(1, 6, n))).astype(float)
        mu = rng.integers(1, 9, n).astype(float)
        mu[int(rng.integers(n))] += 0  # ties are fine: values, not vertices, are compared when the optimum is unique
        return mu, S
    mu = np.abs(gen.means(rng, n)[0]) + 0.02
    if rng.random() < 0.3:  # some whole numbers among the others
        mu[int(rng.integers(n)) if rng.random() < 0.5 else 0] = 1.0
    return mu, gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "block"])))[0]


def k_ef(ctx, rng):
    n = int(rng.integers(2, 8))
    tk = gen.tickers(rng, n)[0]
    mu, S = numbers(ctx, rng, n)
    b = pick(rng, [(0, 1), (-1, 1)])
    m = pick(rng, ["min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk", "efficient_return"])
    sd = float(np.sqrt(np.diag(S)).max())
    arg = {"efficient_risk": [sd], "efficient_return": [float((mu.mean() + mu.max()) / 2)]}.get(m, [])
    if m == "max_quadratic_utility" and ctx.whole:
        arg = [1]

    def call(ms, C, wb=b):
        o = EfficientFrontier(ms, C, weight_bounds=wb, solver="CLARABEL")
        w = getattr(o, m)(*arg)
        return o, w

    r, err = attempt(lambda: call(pd.Series(mu, tk), pd.DataFrame(S, tk, tk)))
    if err:
        raise Skip(err)
    rep = attempt(lambda: r[0].portfolio_performance())[0]
    for _ in range(3):
        ms, h1 = vector(rng, mu, tk, ctx.whole)
        C, h2 = square(rng, S, tk, ctx.whole)
        if h1.startswith("row"):
            ms, h1 = vector(rng, mu, tk, ctx.whole, ("series", "array"))
        wb, h3 = bounds_form(rng, n, b)
        how = "%s, %s, %s" % (h1, h2, h3)
        g, err = attempt(lambda: call(ms, C, wb))
        ctx.check(err is None, "accepted", "%s with %s refused: %s" % (m, how, err))
        if err:
            continue
        same(ctx, r[1], g[1], m, how, 2e-5)
        labels(ctx, g[1], tk if h1.startswith("series") or h2.startswith("frame") else range(n), m, how)
        if rep is not None:
            same(ctx, rep, go(lambda: g[0].portfolio_performance()), "report", how, 2e-5)
    ctx.sig("ef", m, n, ctx.whole, b[0])


def bounds_form(rng, n, b):
    lo, hi = b
    f = pick(rng, ["tuple", "list", "int", "float", "pairs", "arrays", "matrix", "lists", "tuples", "mixed"])
    if f == "tuple":
        return (lo, hi), f
    if f == "list":
        return [lo, hi], f
    if f == "int":
        return (int(lo), int(hi)), f
    if f == "float":
        return (np.float64(lo), np.float64(hi)), f
    if f == "pairs" and n != 2:
        return [(lo, hi)] * n, f
    if f == "tuples" and n != 2:
        return tuple([(lo, hi)] * n), f
    if f == "lists" and n != 2:
        return [[lo, hi]] * n, f
    if f == "matrix" and n != 2:
        return np.array([[lo, hi]] * n, dtype=pick(rng, [float, int])), f
    if f == "arrays":
        return (np.full(n, lo, dtype=pick(rng, [float, int])), np.full(n, float(hi))), f
    return (float(lo), int(hi)), "mixed"


def k_panel(ctx, rng):
    kind = pick(rng, ["semi", "cvar", "cdar"])
    cls, best = {"semi": (EfficientSemivariance, "min_semivariance"), "cvar": (EfficientCVaR, "min_cvar"), "cdar": (EfficientCDaR, "min_cdar")}[kind]
    n, T = int(rng.integers(2, 6)), int(rng.choice([15, 30, 50]))
    tk = gen.tickers(rng, n)[0]
    if ctx.whole:  # returns in per cent
        X = rng.integers(-6, 8, (T, n)).astype(float)
    else:
        X = gen.returns_panel(rng, n, T)[0].to_numpy(float)
    mu = np.abs(X.mean(0)) + np.abs(X).mean() / 10
    if ctx.whole:
        mu = np.rint(mu * 10) + 1
    m = pick(rng, [best, best, "efficient_return", "efficient_risk"])

    def value(o, w):
        w = values(w)
        if m == "efficient_risk":
            return float(w @ mu)
        if kind == "semi":
            return float(np.sqrt((np.minimum(X @ w, 0) ** 2).mean()))
        if kind == "cvar":
            return ref_cvar(X @ w)
        return ref_cdar(X @ w)

    def ref_cvar(x, beta=0.95):
        L = np.sort(-x)[::-1]
        return min(t + np.maximum(-x - t, 0).mean() / (1 - beta) for t in L)

    def ref_cdar(x, beta=0.95):
        c = np.concatenate([[0], np.cumsum(x)])
        d = (np.maximum.accumulate(c) - c)[1:]
        return min(t + np.maximum(d - t, 0).mean() / (1 - beta) for t in d)

    a = np.ones(n) / n
    goal, m = m, best
    risk0, m = value(None, a), goal
    arg = {"efficient_return": [float(mu.min())], "efficient_risk": [max(risk0 * 1.3, 1e-3) * (np.sqrt(252) if kind == "semi" else 1)]}.get(m, [])

    def call(ms, R):
        o = cls(ms, R, solver="CLARABEL")
        return o, getattr(o, m)(*arg)

    r, err = attempt(lambda: call(pd.Series(mu, tk), pd.DataFrame(X, columns=tk)))
    if err:
        raise Skip(err)
    v0 = value(*r)
    for _ in range(3):
        ms, h1 = vector(rng, mu, tk, ctx.whole, ("series", "list", "array", "column"))
        R, h2 = table(rng, X, tk, ctx.whole)
        how = h1 + ", " + h2
        g, err = attempt(lambda: call(ms, R))
        ctx.check(err is None, "accepted", "%s %s with %s refused: %s" % (kind, m, how, err))
        if err:
            continue
        ctx.close(value(*g), v0, "same-values", rtol=2e-4, atol=1e-6 * np.abs(X).max(), msg="%s.%s with %s" % (kind, m, how))
        if h1.startswith("series") or not h2.startswith("frame"):
            labels(ctx, g[1], tk if h1.startswith("series") else range(n), m, how)
    ctx.sig("panel", kind, m, n, ctx.whole)


def k_cla(ctx, rng):
    n = int(rng.integers(2, 8))
    tk = gen.tickers(rng, n)[0]
    mu, S = numbers(ctx, rng, n)
    if ctx.whole:
        mu = np.array(rng.permutation(3 * n)[:n] + 1, float)
    m = pick(rng, ["max_sharpe", "min_volatility"])
    b = pick(rng, [(0, 1), (-1, 1)])

    def call(ms, C, wb=b):
        return getattr(CLA(ms, C, weight_bounds=wb), m)()

    r = go(lambda: call(pd.Series(mu, tk), pd.DataFrame(S, tk, tk)))
    for _ in range(3):
        ms, h1 = vector(rng, mu, tk, ctx.whole, ("series", "list", "array", "column"))
        C, h2 = square(rng, S, tk, ctx.whole)
        wb, h3 = bounds_form(rng, n, b)
        g = go(lambda: call(ms, C, wb))
        how = "%s, %s, %s" % (h1, h2, h3)
        same(ctx, r, g, "cla " + m, how, 1e-6)
        if h1.startswith("series") or not h2.startswith("frame"):
            labels(ctx, g, tk if h1.startswith("series") else range(n), "cla " + m, how)
    ctx.sig("cla", m, n, ctx.whole, b[0])


def k_hrp(ctx, rng):
    n, T = int(rng.integers(2, 9)), 40
    tk = ["H%02d" % int(i) for i in rng.permutation(60)[:n]]
    X = rng.integers(-6, 8, (T, n)).astype(float) if ctx.whole else gen.returns_panel(rng, n, T)[0].to_numpy(float)
    via = pick(rng, ["returns", "cov"])
    lk = pick(rng, ["single", "average", "ward"])
    S = np.cov(X.T)
    if via == "cov" and ctx.whole:
        S = numbers(ctx, rng, n)[1]

    def call(F):
        o = HRPOpt(F) if via == "returns" else HRPOpt(cov_matrix=F)
        return o.optimize(linkage_method=lk)

    R0 = pd.DataFrame(X, columns=tk) if via == "returns" else pd.DataFrame(S, tk, tk)
    r = go(lambda: call(R0))
    d = np.round(R0.corr().to_numpy() if via == "returns" else S / np.sqrt(np.outer(np.diag(S), np.diag(S))), 5)
    if len(np.unique(d[np.triu_indices(n, 1)])) < n * (n - 1) // 2:
        raise Skip("tied correlations")
    for _ in range(2):
        F, how = table(rng, X, tk, ctx.whole, True) if via == "returns" else square(rng, S, tk, ctx.whole, True)
        g = go(lambda: call(F))
        same(ctx, r, g, "hrp", how, 1e-8)
        labels(ctx, g, r, "hrp", how)
    ctx.sig("hrp", via, lk, n, ctx.whole)


def k_bl(ctx, rng):
    n = int(rng.integers(2, 8))
    tk = gen.tickers(rng, n)[0]
    mu, S = numbers(ctx, rng, n)
    K = int(rng.integers(1, n + 1))
    P = np.zeros((K, n))
    o = [int(i) for i in rng.permutation(n)]
    absolute = rng.random() < 0.5
    for i in range(K):
        P[i, o[i]] = 1
        if not absolute and rng.random() < 0.6:
            P[i, o[(i + 1) % n]] = -1
    Q = rng.integers(-3, 9, K).astype(float) if ctx.whole else rng.normal(0.05, 0.1, K)
    if not ctx.whole and rng.random() < 0.3:
        Q[int(rng.integers(K)) if rng.random() < 0.5 else 0] = 1.0
    om = pick(rng, ["default", "diag", "idzorek"])
    W = np.diag(rng.integers(1, 6, K).astype(float) if ctx.whole else rng.uniform(0.001, 0.05, K))
    conf = rng.integers(0, 2, K).astype(float) if ctx.whole and rng.random() < 0.4 else rng.uniform(0.1, 0.9, K)
    cw = bool(np.all(conf == np.rint(conf)))
    prior = pick(rng, ["given", "given", "market"])
    caps = np.rint(rng.uniform(1, 1000, n))

    def call(**kw):
        b = BlackLittermanModel(**kw)
        return b, b.bl_returns(), b.bl_cov()

    kw = dict(cov_matrix=pd.DataFrame(S, tk, tk), Q=Q.reshape(-1, 1).copy(), P=P.copy())
    if prior == "given":
        kw["pi"] = pd.Series(mu, tk)
    else:
        kw.update(pi="market", market_caps=dict(zip(tk, caps)), risk_aversion=2.0)
    if om == "diag":
        kw["omega"] = W.copy()
    elif om == "idzorek":
        kw.update(omega="idzorek", view_confidences=list(conf))
    r = go(lambda: call(**kw))
    for _ in range(3):
        k2, how = dict(kw), []
        C, h = square(rng, S, tk, ctx.whole)
        if prior == "market" and not h.startswith("frame"):
            C, h = square(rng, S, tk, ctx.whole, True)
        k2["cov_matrix"] = C
        how.append(h)
        if prior == "given":
            # labelled priors are matched with the labels of the covariance matrix elsewhere (L01); here by position
            k2["pi"], h = vector(rng, mu, tk, ctx.whole, ("series", "array", "column", "row"))
            how.append(h)
        else:
            cs = [float(c) for c in caps] if rng.random() < 0.5 else [int(c) for c in caps]
            z = list(zip(tk, cs))
            k2["market_caps"] = pick(rng, [dict(z), collections.OrderedDict(z), pd.Series(cs, index=list(tk))])
            k2["risk_aversion"] = pick(rng, [2, 2.0, np.float64(2), np.int64(2)])
            how.append(type(k2["market_caps"]).__name__)
        frame = h.startswith("frame")
        if absolute and isinstance(C, pd.DataFrame) and rng.random() < 0.5:
            z = [(tk[o[i]], (int(Q[i]) if float(Q[i]).is_integer() else float(Q[i]))) for i in range(K)]
            k2.pop("P"), k2.pop("Q")
            k2["absolute_views"] = pick(rng, [dict(z), collections.OrderedDict(z), pd.Series([v for _, v in z], index=[t for t, _ in z]),
                                              pd.Series([v for _, v in z], index=[t for t, _ in z], dtype=object)])
            how.append("absolute " + type(k2["absolute_views"]).__name__)
        else:
            B, h = layout(rng, Q, ctx.whole)
            f = pick(rng, ["flat", "column", "series", "frame"])
            k2["Q"] = {"flat": B, "column": B.reshape(-1, 1), "series": pd.Series(B), "frame": pd.DataFrame(B.reshape(-1, 1))}[f]
            how.append("Q " + f + h)
            B, h = layout(rng, P, True)
            k2["P"] = B if rng.random() < 0.5 else pd.DataFrame(B, columns=tk)
            how.append("P " + h)
            if K == n and np.array_equal(P, np.eye(n)) and rng.random() < 0.5:
                k2.pop("P")
        if om == "diag":
            B, h = layout(rng, W, ctx.whole)
            k2["omega"] = B if rng.random() < 0.5 else pd.DataFrame(B)
            how.append("omega " + h)
        elif om == "idzorek":
            B, h = layout(rng, conf, cw)
            k2["view_confidences"] = pick(rng, [B, B.reshape(-1, 1), B.tolist(), pd.Series(B), tuple(B.tolist())])
            how.append("confidences %s %s" % (type(k2["view_confidences"]).__name__, h))
        elif rng.random() < 0.3:
            k2["omega"] = "default"
        g = go(lambda: call(**k2))
        how = ", ".join(how)
        same(ctx, r[1], g[1], "posterior", how, 1e-8)
        same(ctx, r[2], g[2], "posterior-cov", how, 1e-8)
        w = values(attempt(lambda: r[0].bl_weights())[0] or {})
        if len(w) and np.abs(w).max() < 1e3:
            same(ctx, w, go(lambda: g[0].bl_weights()), "implied", how, 1e-5)
        labels(ctx, g[1].index, tk if isinstance(C, pd.DataFrame) else range(n), "posterior", how)
    ctx.sig("bl", n, K, om, prior, ctx.whole, absolute)


def k_estimate(ctx, rng):
    n, T = int(rng.integers(2, 8)), int(rng.choice([12, 30, 60]))
    tk = gen.tickers(rng, n)[0]
    X = gen.price_panel(rng, n, T=T)[0].to_numpy(float)
    if ctx.whole:
        X = np.maximum(np.rint(X * 10), 1)
    fns = {"mean": expected_returns.mean_historical_return, "ema": expected_returns.ema_historical_return, "capm": expected_returns.capm_return,
           "sample": risk_models.sample_cov, "semi": risk_models.semicovariance, "exp": risk_models.exp_cov,
           "lw": lambda p, **k: risk_models.CovarianceShrinkage(p, **k).ledoit_wolf(),
           "lw1": lambda p, **k: risk_models.CovarianceShrinkage(p, **k).ledoit_wolf("single_factor"),
           "lwc": lambda p, **k: risk_models.CovarianceShrinkage(p, **k).ledoit_wolf("constant_correlation"),
           "oas": lambda p, **k: risk_models.CovarianceShrinkage(p, **k).oracle_approximating(),
           "shrunk": lambda p, **k: risk_models.CovarianceShrinkage(p, **k).shrunk_covariance(),
           "returns": lambda p, **k: expected_returns.returns_from_prices(p),
           "prices": lambda p, **k: expected_returns.prices_from_returns(p), "latest": lambda p, **k: discrete_allocation.get_latest_prices(p)}
    nm = pick(rng, sorted(fns))
    kw = {}
    if nm not in ("returns", "prices", "latest"):
        kw["frequency"] = pick(rng, [252, 12])
        if rng.random() < 0.3:
            kw["log_returns"] = True
    if nm == "prices" or (nm not in ("latest", "returns") and rng.random() < 0.3 and not ctx.whole):
        X = X[1:] / X[:-1] - 1
        if nm != "prices":
            kw.pop("log_returns", None)
            kw["returns_data"] = True
        whole = False
    else:
        whole = ctx.whole
    F0 = pd.DataFrame(X, index=pd.bdate_range("2015-01-02", periods=len(X)), columns=tk)
    r = go(lambda: fns[nm](F0, **kw))
    for _ in range(3):
        F, how = table(rng, X, tk, whole, True if nm in ("returns", "prices", "latest") else None)
        k2 = dict(kw)
        if "frequency" in k2:
            k2["frequency"] = pick(rng, [int, float, np.int64, np.float64])(k2["frequency"])
        g = go(lambda: fns[nm](F, **k2))
        same(ctx, r, g, nm, how, 1e-8)
        if nm not in ("returns", "prices"):
            labels(ctx, g.index, tk if isinstance(F, pd.DataFrame) else range(n), nm, how)
        else:
            labels(ctx, g.columns, tk, nm, how)
            labels(ctx, g.index, F.index[1:] if nm == "returns" else F.index, nm, how)
    ctx.sig("estimate", nm, n, whole, tuple(sorted(kw)))


def k_alloc(ctx, rng):
    n = int(rng.integers(2, 7))
    tk = gen.tickers(rng, n)[0]
    w = rng.dirichlet(np.ones(n))
    if rng.random() < 0.3:
        w[0] = -w[0] - 0.01
    pr = np.rint(rng.uniform(5, 80, n)) if ctx.whole else np.round(rng.uniform(5, 80, n), 2)
    V = float(rng.integers(2000, 20000))
    how_ = pick(rng, ["greedy_portfolio", "lp_portfolio"])
    kw = {} if rng.random() < 0.6 else dict(reinvest=True)

    def call(ws, ps, v):
        return getattr(DiscreteAllocation(ws, ps, total_portfolio_value=v), how_)(**kw)

    z = list(zip(tk, [float(x) for x in w]))
    r, err = attempt(lambda: call(dict(z), pd.Series(pr, tk), V))
    if err:
        raise Skip(err)
    for _ in range(3):
        ws = pick(rng, [dict(z), collections.OrderedDict(z), dict((t, np.float64(x)) for t, x in z), collections.OrderedDict((t, np.float64(x)) for t, x in z)])
        B, h = layout(rng, pr, ctx.whole)
        ps = pd.Series(B, index=list(tk), name=pick(rng, [None, "last"]), copy=False)
        v = pick(rng, [int(V), V, np.float64(V), np.int64(V)])
        g, err = attempt(lambda: call(ws, ps, v))
        ctx.check(err is None, "accepted", "%s refused %s" % (how_, h))
        if err:
            continue
        how = "%s, prices %s, value %s" % (type(ws).__name__, h, type(v).__name__)
        if how_ == "greedy_portfolio":
            ctx.check(dict(g[0]) == dict(r[0]), "same-values", "%s with %s: %r instead of %r" % (how_, how, g[0], r[0]))
            ctx.close(g[1], r[1], "same-values", rtol=1e-9, atol=1e-6)
        else:  # several optimal allocations may exist: the achieved objective is D02's subject
            worth = sum(abs(k) * float(pr[tk.index(t)]) for t, k in g[0].items()), sum(abs(k) * float(pr[tk.index(t)]) for t, k in r[0].items())
            ctx.check(set(type(k).__name__ for k in g[0].values()) == set(type(k).__name__ for k in r[0].values()) and abs(worth[0] - worth[1]) <= 0.2 * V,
                      "same-values", "%s with %s: %r instead of %r" % (how_, how, g[0], r[0]))
        ctx.check(all(t in tk for t in g[0]), "labels")
    ctx.sig("alloc", how_, n, ctx.whole, bool(kw))


def k_report(ctx, rng):
    """Objective functions and reports with other containers."""
    n = int(rng.integers(2, 8))
    tk = gen.tickers(rng, n)[0]
    mu, S = numbers(ctx, rng, n)
    w = rng.dirichlet(np.ones(n))
    if rng.random() < 0.4:
        w = randw(rng, n)
    r = portfolio_performance(np.array(w), pd.Series(mu, tk), pd.DataFrame(S, tk, tk))
    o_ = objective_functions
    wb = np.ones(n) / n
    fns = {"variance": lambda w, m, C: o_.portfolio_variance(w, C), "return": lambda w, m, C: o_.portfolio_return(w, m),
           "sharpe": lambda w, m, C: o_.sharpe_ratio(w, m, C), "utility": lambda w, m, C: o_.quadratic_utility(w, m, C, 2),
           "l2": lambda w, m, C: o_.L2_reg(w, 3), "cost": lambda w, m, C: o_.transaction_cost(w, wb), "te": lambda w, m, C: o_.ex_ante_tracking_error(w, C, wb)}
    base_ = {k: f(np.array(w), np.array(mu), np.array(S)) for k, f in fns.items()}
    for _ in range(3):
        m, h1 = vector(rng, mu, tk, ctx.whole, ("series", "array", "list"))
        C, h2 = square(rng, S, tk, ctx.whole)
        B, h3 = layout(rng, w)
        how = "%s, %s, weights %s" % (h1, h2, h3)
        ws = B
        if (h1.startswith("series") or h2.startswith("frame")) and rng.random() < 0.6:
            z = [(t, float(x)) for t, x in zip(tk, w)]
            z = [z[int(i)] for i in rng.permutation(n)]
            ws = pick(rng, [dict, collections.OrderedDict])(z)
            how += " as dict"
        elif rng.random() < 0.3:
            ws = B.tolist()
            how += " as list"
        elif not (h1.startswith("series") or h2.startswith("frame")) and rng.random() < 0.5:
            ws = {i: float(x) for i, x in enumerate(w)}
            how += " as positional dict"
        g = go(lambda: portfolio_performance(ws, m, C))
        same(ctx, r, g, "report", how, 1e-9)
        k = pick(rng, sorted(fns))
        mm, _ = vector(rng, mu, tk, ctx.whole, ("series", "array"))
        same(ctx, [base_[k]], [go(lambda: fns[k](B, mm, C))], k, how, 1e-9)
    ctx.sig("report", n, ctx.whole)
