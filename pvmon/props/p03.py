"""P03 Printed reports state the returned figures; amendments and doubtful data are announced.

report: the text printed with verbose=True is parsed and compared with the returned tuple (all classes, the
        stand-alone function, the discrete allocation); nothing is printed without it, and printing changes nothing.
warn:   each documented announcement is provoked and its absence provoked: a warning must appear exactly when due."""

import contextlib
import io
import re

from .common import *
from . import alloc
from pypfopt import (BlackLittermanModel, CLA, DiscreteAllocation, EfficientCDaR, EfficientCVaR,  # noqa: E402
                     EfficientFrontier, EfficientSemivariance, HRPOpt, black_litterman, expected_returns, risk_models)
from pypfopt.base_optimizer import portfolio_performance  # noqa: E402

BUDGET = {"quick": {"report": 1500, "alloc": 500, "warn": 2500}, "thorough": {"report": 40000, "alloc": 14000, "warn": 60000}}
RULE = ("report/alloc cases draw a portfolio (optimised or set), a class, a risk-free rate and call the report twice, once verbose with standard output "
        "captured; every printed figure is compared with the returned one at the printed precision. warn cases draw a documented trigger, "
        "provoke it and its negation on the same data, and observe the warnings issued.")
MIN = {"chk:printed": 2500, "chk:silent": 1200, "chk:same-figures": 1200, "chk:announced": 1000, "chk:unannounced": 1000, "chk:alloc-printed": 300, "chk:alloc-lines": 500}
ASSUMES = ["the wording of warnings is not judged, only that one is issued; figures in reports are read with their labels"]

NUM = r"(-?(?:\d+\.?\d*|nan|inf))"


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def captured(fn):
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        r = fn()
    return r, out.getvalue()


def stated(ctx, text, label, value, scale, digits, where):
    """One figure of a printed report: present exactly when the returned one is, and equal to it."""
    got = re.findall(r"(?im)^%s[^:\n]*:\s*%s" % (label, NUM), text)
    if value is None:
        ctx.check(not got, "printed", "%s prints %s=%r although none is returned" % (where, label, got), text=text)
        return
    want = float(value) * scale
    ok = len(got) == 1 and (np.isclose(float(got[0]), want, rtol=1e-9, atol=0.501 * 10 ** -digits) or
                            (not np.isfinite(want) and not np.isfinite(float(got[0]))))
    ctx.check(ok, "printed", "%s prints %s %r, returns %r" % (where, label, got, want), text=text)


RET, VOL, SHARPE = (r"Expected", 100, 1), (r"Annual volatility", 100, 1), (r"Sharpe", 1, 2)
FIGS = {"mv": [RET, VOL, SHARPE],
        "semi": [RET, (r"Annual semi", 100, 1), (r"Sortino", 1, 2)],
        "cvar": [RET, (r"Conditional Value", 100, 2)],
        "cdar": [RET, (r"Conditional Drawdown", 100, 2)]}


def k_report(ctx, rng):
    kind = pick(rng, ["ef", "ef-none", "cla", "hrp", "hrp-cov", "bl", "alone", "alone-none", "semi", "cvar", "cdar", "semi-none", "cvar-none", "cdar-none"])
    n = int(rng.integers(2, 7))
    S, _ = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "block"])))
    mu, _ = gen.means(rng, n)
    tk = ["A%d" % i for i in range(n)] if kind.startswith("hrp") else gen.tickers(rng, n)[0]
    C = pd.DataFrame(S, tk, tk)
    m = pd.Series(mu, tk)
    none = kind.endswith("none")
    kw = {}
    fig = "mv"
    if kind in ("semi", "cvar", "cdar", "semi-none", "cvar-none", "cdar-none"):
        fig = kind[:4].rstrip("-")
        X, _ = gen.returns_panel(rng, n, int(rng.choice([25, 60])), tk=tk)
        cls = {"semi": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}[fig]
        ck = {"frequency": int(rng.choice([12, 52, 252, 1])), "benchmark": float(rng.choice([0, 0.0002, -0.001]))} if fig == "semi" else \
            {"beta": float(rng.choice([0.95, 0.9, 0.5]))}
        o = cls(None if none else m, X, weight_bounds=pick(rng, [(0, 1), (-0.5, 1)]), solver="CLARABEL", **(ck if rng.random() < 0.6 else {}))
        _, err = attempt(lambda: getattr(o, {"semi": "min_semivariance", "cvar": "min_cvar", "cdar": "min_cdar"}[fig])())
        if err:
            raise Skip(err)
        if fig == "semi" and rng.random() < 0.5:
            kw["risk_free_rate"] = float(rng.choice([0, 0.01, -0.02, 0.1]))
        call = o.portfolio_performance
    else:
        if rng.random() < 0.6:
            kw["risk_free_rate"] = float(rng.choice([0, 0.01, -0.02, 0.1, 0.5]))
        w = randw(rng, n) if rng.random() < 0.5 else rng.dirichlet(np.ones(n))
        if rng.random() < 0.2:
            w = w * float(rng.choice([0.001, 20]))
        d = dict(zip(tk, [float(x) for x in w]))
        if kind in ("ef", "ef-none"):
            o = EfficientFrontier(None if none else m, C)
            o.set_weights(d)
            call = o.portfolio_performance
        elif kind == "cla":
            o = CLA(m, C)
            _, err = attempt(lambda: getattr(o, pick(rng, ["max_sharpe", "min_volatility"]))())
            if err:
                raise Skip(err)
            call = o.portfolio_performance
        elif kind == "hrp":
            X, _ = gen.returns_panel(rng, n, 40, tk=tk)
            o = HRPOpt(X)
            o.optimize()
            call = o.portfolio_performance
            if rng.random() < 0.5:
                kw["frequency"] = int(rng.choice([52, 12, 252, 1]))
        elif kind == "hrp-cov":
            o = HRPOpt(cov_matrix=C)
            o.optimize()
            call = o.portfolio_performance
        elif kind == "bl":
            o = BlackLittermanModel(C, pi=m, absolute_views={tk[0]: 0.1})
            o.bl_weights() if rng.random() < 0.7 else (o.bl_returns(), o.set_weights(d))
            call = o.portfolio_performance
            if o.weights is None or getattr(o, "posterior_rets", None) is None:
                raise Skip("no posterior")
        else:
            def call(**k):
                return portfolio_performance(d, None if none else m, C, **k)
    first, quiet_text = captured(lambda: call(**kw))
    second, text = captured(lambda: call(verbose=True, **kw))
    third, quiet2 = captured(lambda: call(verbose=False, **kw))
    ctx.check(not quiet_text.strip() and not quiet2.strip(), "silent", "%s prints without verbose" % kind, text=quiet_text + quiet2)
    def same(a, b):
        return len(a) == len(b) and all((x is None and y is None) or (x is not None and y is not None and (x == y or abs(x - y) <= 1e-12 * abs(x) or (x != x and y != y)))
                                        for x, y in zip(a, b))
    ctx.check(same(first, second) and same(first, third), "same-figures", "%s: reports %r, %r (verbose), %r" % (kind, first, second, third))
    for (label, scale, digits), v in zip(FIGS[fig], second):
        stated(ctx, text, label, v, scale, digits, kind)
    ctx.event("report", cls=kind, figures=[None if v is None else float(v) for v in second], text=text)
    ctx.sig("report", kind, tuple(sorted(kw)), tuple(None if v is None else (v < 0) for v in second))


def k_alloc(ctx, rng):
    shorts = rng.random() < 0.35
    b = alloc.Book(rng, shorts=shorts, hi=8)
    how = pick(rng, ["greedy_portfolio", "lp_portfolio"])
    with hooks.unmonitored():
        a, e1 = attempt(lambda: captured(lambda: getattr(b.da(), how)()))
        c, e2 = attempt(lambda: captured(lambda: getattr(b.da(), how)(verbose=True)))
    if e1 or e2:
        ctx.check((e1 is None) == (e2 is None), "same-figures", "verbose changes the refusal: %r / %r" % (e1, e2))
        raise Skip("refused")
    (r0, t0), (r1, t1) = a, c
    ctx.check(not t0.strip(), "silent", "%s prints without verbose" % how, text=t0)
    ctx.check(r0[0] == r1[0] and abs(r0[1] - r1[1]) <= 1e-9 * max(1, abs(r0[1])), "same-figures", "%s: %r, verbose %r" % (how, r0, r1))
    left = [float(x) for x in re.findall(r"(?m)^Funds remaining: %s" % NUM, t1)]
    if not shorts:
        ctx.check(len(left) == 1 and abs(left[0] - r1[1]) <= 0.0051 + 1e-9 * abs(r1[1]), "alloc-printed",
                  "%s prints funds remaining %r, returns %r" % (how, left, r1[1]), text=t1[:600])
        rms = re.findall(r"RMSE:\s*%s" % NUM, t1)
        worth = sum(k * float(b.prices[t]) for t, k in r1[0].items())
        if rms and worth > 0:
            want = np.sqrt(np.mean([(w - r1[0].get(t, 0) * float(b.prices[t]) / worth) ** 2 for t, w in b.weights.items()]))
            ctx.check(len(rms) == 1 and abs(float(rms[0]) - want) <= 6e-4, "alloc-rmse", "%s prints %r, holdings give %.6f" % (how, rms, want), text=t1[:600])
            for t, w in b.weights.items():
                for line in t1.splitlines():
                    g = re.fullmatch(re.escape(str(t)) + r":\D*%s\D*?%s\s*" % (NUM, NUM), line)
                    if g and "desired" in line:
                        have = r1[0].get(t, 0) * float(b.prices[t]) / worth
                        ctx.check(abs(float(g[1]) - have) <= 6e-4 and abs(float(g[2]) - w) <= 6e-4, "alloc-lines",
                                  "%s prints %r, holds %.6f of %.6f" % (how, line, have, w))
    ctx.sig("alloc", how, shorts, len(left), len(r1[0]))


# ------------------------------------------------------------------ announcements


def warned(fn):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        r = fn()
    own = [w for w in rec if not issubclass(w.category, (DeprecationWarning, FutureWarning, PendingDeprecationWarning))]
    return r, own


def due(ctx, name, fn, word=None):
    _, rec = warned(fn)
    rec = [r for r in rec if word is None or re.search(word, str(r.message), re.I)]
    ctx.check(len(rec) >= 1, "announced", "%s: no warning issued" % name, name=name)
    ctx.event("warning", what=name, text=str(rec[0].message)[:80] if rec else None)


def not_due(ctx, name, fn, word=None):
    _, rec = warned(fn)
    rec = [r for r in rec if word is None or re.search(word, str(r.message), re.I)]
    ctx.check(not rec, "unannounced", "%s: unexpected warning %r" % (name, [str(r.message)[:120] for r in rec][:2]), name=name)


def k_warn(ctx, rng):
    n = int(rng.integers(2, 7))
    tk = gen.tickers(rng, n)[0]
    name = pick(rng, sorted(TRIGGERS))
    ctx.note(trigger=name, n=n)
    TRIGGERS[name](ctx, rng, n, tk)
    ctx.sig("warn", name, n)


def t_neutral(ctx, rng, n, tk):
    S, _ = gen.covariance(rng, n, "wishart")
    mu, _ = gen.means(rng, n, "normal")
    m = pick(rng, ["max_quadratic_utility", "efficient_risk", "efficient_return"])
    arg = {"max_quadratic_utility": [], "efficient_risk": [1.0], "efficient_return": [float(np.abs(mu).min() / 10)]}[m]

    def raw(b):
        o = EfficientFrontier(pd.Series(mu, tk), S, weight_bounds=b, solver="CLARABEL")
        try:
            getattr(o, m)(*arg, market_neutral=True)
        except (exceptions.OptimizationError, cp.SolverError):
            pass
        except ValueError:
            raise Skip("target out of range")

    pos = pick(rng, [(0, 1), (0, 0.5), (0.0, 1.0), (np.zeros(n), np.ones(n))])
    due(ctx, "neutral-bounds", lambda: raw(pos), "bounds|short")
    neg = pick(rng, [(-1, 1), (-0.2, 0.4), (None, None)])
    not_due(ctx, "neutral-bounds", lambda: raw(neg), "bounds|amend")


def t_sector(ctx, rng, n, tk):
    S, _ = gen.covariance(rng, n, "wishart")

    def go(b):
        EfficientFrontier(None, pd.DataFrame(S, tk, tk), weight_bounds=b).add_sector_constraints({t: "s" for t in tk}, {}, {"s": 1})

    pos = rng.choice([0, 0, 0.05, 0.01], n) if rng.random() < 0.6 else np.zeros(n)
    lo = pos.copy()
    for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]:
        lo[int(i)] = -float(rng.choice([1e-6, 0.1, 1, 2]))
    up = np.full(n, float(rng.choice([1, 0.9])))
    form = pick(rng, [lambda l, u: (l, u), lambda l, u: (l, u), lambda l, u: list(zip(l.tolist(), u.tolist()))])
    due(ctx, "sector-shorts", lambda: go(form(lo, up)), "sector|short")
    not_due(ctx, "sector-shorts", lambda: go(form(pos, up)), "sector|short")
    if rng.random() < 0.4:
        due(ctx, "sector-shorts", lambda: go(pick(rng, [(-1, 1), (-0.05, 0.5), (None, None), (None, 1)])), "sector|short")
        not_due(ctx, "sector-shorts", lambda: go(pick(rng, [(0, 1), (0, None), (0.01, 0.9)])), "sector|short")


def t_repair(ctx, rng, n, tk):
    A = rng.normal(0, 1, (n, n))
    A = A @ A.T
    A = A / np.trace(A) * n * float(rng.choice([1, 0.04]))
    q, U = np.linalg.eigh(A)
    bad = A - U[:, :1] @ U[:, :1].T * (q[0] + float(rng.choice([0.01, 0.2])) * q[-1])
    bad = (bad + bad.T) / 2
    fm = pick(rng, ["spectral", "diag"])
    F = pick(rng, [lambda X: pd.DataFrame(X, tk, tk), np.array])
    due(ctx, "repair", lambda: risk_models.fix_nonpositive_semidefinite(F(bad), fix_method=fm), "positive semidefinite|covariance")
    good = A + 1e-3 * np.trace(A) / n * np.eye(n)
    not_due(ctx, "repair", lambda: risk_models.fix_nonpositive_semidefinite(F(good), fix_method=fm))


def panel(rng, n, tk, T=30):
    P, _ = gen.price_panel(rng, n, T=T, tk=tk)
    return P


ESTIMATORS = [lambda P, **k: expected_returns.mean_historical_return(P, **k), lambda P, **k: expected_returns.ema_historical_return(P, **k),
              lambda P, **k: expected_returns.capm_return(P, **k), lambda P, **k: risk_models.sample_cov(P, **k),
              lambda P, **k: risk_models.semicovariance(P, **k), lambda P, **k: risk_models.exp_cov(P, **k)]


def t_frame(ctx, rng, n, tk):
    P = panel(rng, n, tk)
    i = int(rng.integers(len(ESTIMATORS) + 1))
    f = ESTIMATORS[i] if i < len(ESTIMATORS) else (lambda P, **k: risk_models.CovarianceShrinkage(P, **k))
    due(ctx, "frame", lambda: f(P.to_numpy()), "dataframe")
    not_due(ctx, "frame", lambda: f(P), "dataframe")


def t_convert(ctx, rng, n, tk):
    S, _ = gen.covariance(rng, n, "wishart")
    C = pd.DataFrame(S, tk, tk)
    if rng.random() < 0.5:
        due(ctx, "convert", lambda: risk_models.cov_to_corr(S), "dataframe")
        not_due(ctx, "convert", lambda: risk_models.cov_to_corr(C), "dataframe")
    else:
        sd = np.sqrt(np.diag(S))
        R = S / np.outer(sd, sd)
        due(ctx, "convert", lambda: risk_models.corr_to_cov(R, sd), "dataframe")
        not_due(ctx, "convert", lambda: risk_models.corr_to_cov(pd.DataFrame(R, tk, tk), sd), "dataframe")


def returns_of(P):
    return P.pct_change(fill_method=None).iloc[1:]


def t_nan(ctx, rng, n, tk):
    """A missing return after the first observation of an asset is announced; a late start is not."""
    T = 30
    P = panel(rng, n, tk, T)
    i = int(rng.integers(3))
    f = ESTIMATORS[i]
    which = "returns"
    j = int(rng.integers(n))
    t = int(rng.integers(3, T - 2))
    ctx.note(estimator=i)
    if rng.random() < 0.5:
        R = returns_of(P)
        u = pick(rng, [t + 1, t + 1, T, min(t + 5, T)])
        R.iloc[t:u, j] = np.nan
        if rng.random() < 0.3:  # together with a late start, of this or another asset
            R.iloc[:2, int(rng.integers(n))] = np.nan
        due(ctx, "nan-" + which, lambda: f(R, returns_data=True), "nan")
        L = returns_of(P)
        L.iloc[:t, j] = np.nan
        not_due(ctx, "late-" + which, lambda: f(L, returns_data=True), "nan")
    if rng.random() < 0.5:
        Q = P.copy()
        Q.iloc[t:pick(rng, [t + 1, T, min(t + 5, T)]), j] = np.nan
        if n > 1 or t < T - 6:
            due(ctx, "gap-prices", lambda: f(Q), "nan")
        L = P.copy()
        L.iloc[:t, j] = np.nan
        if i != 2:
            not_due(ctx, "late-prices", lambda: f(L), "nan")
    not_due(ctx, "clean-" + which, lambda: f(P), "nan|infinite")


def t_inf(ctx, rng, n, tk):
    T = 30
    P = panel(rng, n, tk, T)
    R = returns_of(P)
    R.iloc[int(rng.integers(len(R))), int(rng.integers(n))] = float(rng.choice([np.inf, -np.inf]))
    i = int(rng.integers(3))

    def go(X):
        try:
            ESTIMATORS[i](X, returns_data=True)
        except (np.linalg.LinAlgError, ValueError):
            pass

    due(ctx, "infinite", lambda: go(R), "infinite|price data")
    not_due(ctx, "finite", lambda: go(returns_of(P)), "infinite|price data")


def t_rows(ctx, rng, n, tk):
    X, _ = gen.returns_panel(rng, n, 30, tk=tk)
    Y = X.copy()
    Y.iloc[int(rng.integers(30)), int(rng.integers(n))] = np.nan
    mu = pd.Series(np.abs(X.mean().to_numpy()), tk)
    cls = pick(rng, [EfficientSemivariance, EfficientCVaR, EfficientCDaR])
    arr = rng.random() < 0.4
    due(ctx, "rows", lambda: cls(mu, Y.to_numpy() if arr else Y), "nan")
    not_due(ctx, "rows", lambda: cls(mu, X.to_numpy() if arr else X), "nan")


def t_beta(ctx, rng, n, tk):
    X, _ = gen.returns_panel(rng, n, 30, tk=tk)
    cls = pick(rng, [EfficientCVaR, EfficientCDaR])
    due(ctx, "beta", lambda: cls(None, X, beta=float(rng.choice([0, 0.05, 0.1, 0.2]))), "beta")
    not_due(ctx, "beta", lambda: cls(None, X, beta=float(rng.choice([0.21, 0.5, 0.95, 0.99]))), "beta")


def t_prior(ctx, rng, n, tk):
    S, _ = gen.covariance(rng, n, "wishart")
    C = pd.DataFrame(S, tk, tk)
    due(ctx, "prior", lambda: BlackLittermanModel(C, absolute_views={tk[0]: 0.1}), "prior")
    not_due(ctx, "prior", lambda: BlackLittermanModel(C, pi=pick(rng, ["equal", pd.Series(0.1, tk), np.zeros(n)]), absolute_views={tk[0]: 0.1}), "prior")
    caps = {t: 1.0 + i for i, t in enumerate(tk)}
    due(ctx, "market-frame", lambda: black_litterman.market_implied_prior_returns(pd.Series(list(caps.values())), 1, S), "dataframe")
    not_due(ctx, "market-frame", lambda: black_litterman.market_implied_prior_returns(caps, 1, C), "dataframe")


def t_span(ctx, rng, n, tk):
    P = panel(rng, n, tk)
    due(ctx, "span", lambda: risk_models.exp_cov(P, span=int(rng.choice([2, 5, 9]))), "span")
    not_due(ctx, "span", lambda: risk_models.exp_cov(P, span=int(rng.choice([10, 11, 60, 180]))), "span")


def t_objective_sharpe(ctx, rng, n, tk):
    S, _ = gen.covariance(rng, n, "wishart")
    mu = np.abs(gen.means(rng, n)[0]) + 0.02
    def go(add):
        o = EfficientFrontier(pd.Series(mu, tk), S, solver="CLARABEL")
        if add:
            o.add_objective(lambda w: 0.1 * cp.sum_squares(w))
        attempt_raw(o.max_sharpe)
    due(ctx, "sharpe-objective", lambda: go(True), "max_sharpe|objective")
    not_due(ctx, "sharpe-objective", lambda: go(False), "max_sharpe|objective")


def attempt_raw(f):
    try:
        f()
    except (exceptions.OptimizationError, cp.SolverError, ValueError):
        pass


TRIGGERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}
