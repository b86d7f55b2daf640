"""D01 Greedy allocation: conservation, floors, stopping rule, termination, latest prices."""

import contextlib
import io
import re

from .alloc import *
from pypfopt import get_latest_prices  # noqa: E402

BUDGET = {"quick": {"greedy": 40500, "latest": 4050, "rounded": 4860},
          "thorough": {"greedy": 810000, "latest": 81000, "rounded": 97200}}
RULE = ("Each case draws a long-only weight mapping (equal, decimal, cleaned, sparse, partial, ...), prices (round, cents, exact "
        "divisors of the target amounts, cheap, unaffordable, ...) in another order or with extra assets and a portfolio value, and "
        "counts shares and cash of the greedy allocation under a bound on loop iterations.")
MIN = {"chk:greedy-conservation": 500, "chk:greedy-floor": 500, "chk:greedy-stop": 200, "chk:terminates": 500, "chk:latest": 100}
ASSUMES = ["prices of at least 1e-5 of the portfolio value (the second round buys share by share)"]


def allocate(ctx, b, **kw):
    o = b.da()
    budget = 200 + 40 * b.n * b.n + 40 * int(b.V / float(np.min(b.p)) + 1)
    r, used = bounded(lambda: o.greedy_portfolio(**kw), budget)
    ctx.check(r is not None, "terminates", "more than %d loop iterations" % budget, problem=b.describe(), weights=b.weights,
              prices=b.prices)
    if r is None:
        raise Skip("did not terminate")
    ctx.event("loop-steps", used=used, budget=budget)
    ctx.count("loop_steps", used)
    return r


def run_case(ctx):
    rng = ctx.rng
    if ctx.kind == "latest":
        return latest(ctx, rng)
    if ctx.kind == "rounded":
        b = Book(rng, wkind="clean")
        # cleaned weights that add up to slightly more than one
        i = int(np.argmax(b.w))
        b.w[i] += 1 - b.w.sum() + float(rng.choice([1e-5, 3e-5, 1e-4]))
        b.w = np.round(b.w, 5)
        b.weights = dict(zip(b.tk, (float(x) for x in b.w)))
        if (b.w < 0).any():
            raise Skip("not long-only")
    else:
        b = Book(rng, hi=30 if rng.random() < 0.2 else 14)
        if rng.random() < 0.2 and b.prices.dtype.kind == "f":  # another currency
            u = float(10.0 ** rng.uniform(-5, 6))
            b.V, b.p, b.prices, b.vkind = b.V * u, b.p * u, b.prices * u, "currency"
    ctx.note(**b.describe())
    verbose = rng.random() < 0.1
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        alloc, left = allocate(ctx, b, **({"verbose": True} if verbose else {}))
    x, cost = long_only_rules(ctx, b, alloc, left, "greedy")
    ctx.close(float(left), b.V - cost, "greedy-conservation", rtol=0, atol=2e-8 * b.V, problem=b.describe(), alloc=dict(alloc))
    p = np.array([float(b.prices[t]) for t in b.tk])
    ctx.check(not ((x > 0) & (b.w <= 0)).any(), "greedy-zero-weight", "bought %r for weights %r" % (x, b.w), weights=b.weights, prices=b.prices)
    if b.w.sum() <= 1 + 1e-12:
        ideal = b.w * b.V / p
        ctx.check((x >= np.floor(ideal * (1 - 1e-9))).all(), "greedy-floor", "holds %r, weights pay for %r" % (x, ideal),
                  weights=b.weights, prices=b.prices, value=b.V)
        if b.n <= 10 and left > 0:
            held = x * p
            short = b.w - (held / held.sum() if held.sum() > 0 else 0)
            can = (p <= left * (1 - 1e-9)) & (short > 1e-9)
            ctx.check(not can.any(), "greedy-stop", "%.6g left, but %r is below target and costs %r" % (
                left, [t for t, c in zip(b.tk, can) if c], p[can]), weights=b.weights, prices=b.prices, alloc=dict(alloc))
    if verbose and len(alloc):
        # the printed error analysis is that of the holdings
        held = x * p / cost
        rms = float(np.sqrt(np.mean((b.w - held) ** 2)))
        got = re.findall(r"RMSE: (-?[0-9.]+|nan)", out.getvalue())
        ctx.check(len(got) == 1 and abs(float(got[0]) - rms) <= 6e-4, "verbose-rmse", "printed %r, holdings give %.6f" % (got, rms))
        for t, h, w in zip(b.tk, held, b.w):
            ctx.check("%s: allocated %.3f, desired %.3f" % (t, h, w) in out.getvalue() or abs(h * 1000 % 1 - 0.5) < 1e-3, "verbose-line", str(t))
    ctx.sig(*b.signature(int((x > 0).sum()), bool(left > 0.01 * b.V)))


def latest(ctx, rng):
    n = gen.size(rng, 1, 8)
    P = panel(rng, n)
    r = get_latest_prices(P)
    ctx.check(isinstance(r, pd.Series) and list(r.index) == list(P.columns), "latest-labels")
    for t in P.columns:
        col = P[t].to_numpy(float)
        seen = col[np.isfinite(col)]
        if len(seen):
            ctx.check(float(r[t]) == seen[-1], "latest", "%r: %r instead of %r" % (t, r[t], seen[-1]))
        else:
            ctx.check(bool(np.isnan(r[t])), "latest", "no price ever, got %r" % r[t])
    try:
        get_latest_prices(P.to_numpy())
        ctx.check(False, "latest-type")
    except TypeError:
        ctx.check(True, "latest-type")
    ctx.sig("latest", n, int(P.isna().to_numpy().sum()) > 0, int(P.iloc[-1].isna().sum()))


def panel(rng, n):
    T = int(rng.choice([1, 2, 5, 30]))
    tk, _ = gen.tickers(rng, n)
    V = 100 * np.exp(np.cumsum(rng.normal(0, 0.02, (T, n)), 0))
    V[rng.random((T, n)) < float(rng.choice([0, 0.1, 0.5]))] = np.nan
    for j in range(n):
        if rng.random() < 0.3:
            V[T - int(rng.integers(0, T)):, j] = np.nan
    return pd.DataFrame(V, columns=tk, index=pd.bdate_range("2020-01-01", periods=T))
