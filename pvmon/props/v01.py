"""V01 Plots: the artists on the returned axes (or traces of the figure) against independently computed data."""

import shutil
import struct
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

from .common import *

BUDGET = {"quick": {"ef": 183, "default": 107, "cla": 168, "cov": 240, "weights": 240, "dend": 168},
          "thorough": {"ef": 3700, "default": 2100, "cla": 3400, "cov": 4800, "weights": 4800, "dend": 3400}}
RULE = ("ef: a drawn problem swept over utility, risk or return parameters including unattainable and invalid ones; every curve point "
        "must be the optimum of its parameter (fresh optimiser and separately posed reference), in parameter order, none missing or "
        "repeated. default: the automatic range runs from the minimum-variance return to the maximum return. cla: curve on the "
        "efficient frontier, marker at the current portfolio. cov/weights/dend: displayed numbers, order and labels against the "
        "input. Matplotlib artists and plotly traces; files written to a scratch directory.")
MIN = {"chk:curve-point": 800, "chk:curve-complete": 100, "chk:asset-markers": 100, "chk:cov-image": 80, "chk:bars": 80, "chk:dendrogram": 50}
ASSUMES = ["the Agg backend renders artists as set"]


def run_case(ctx):
    try:
        dict(ef=ef, default=ef, cla=cla, cov=cov, weights=weights, dend=dend)[ctx.kind](ctx)
    finally:
        plt.close("all")


def canvas(ctx):
    """(ax argument, expected axes or None): a given axes, the current axes, or an untouched state."""
    plt.close("all")
    if ctx.rng.random() < 0.5:
        fig, axs = plt.subplots(1, 2)
        plt.sca(axs[1])
        return dict(ax=axs[0]), axs[0], axs[1]
    return {}, None, None


def output(ctx):
    """Options for saving, and a verifier to call afterwards (always removes the directory)."""
    if ctx.rng.random() > 0.15:
        return {}, lambda fig: None
    d = tempfile.mkdtemp(prefix="pvmon-")
    path = os.path.join(d, "plot.png")
    kw = dict(filename=path)
    dpi = int(ctx.rng.choice([60, 90]))
    if ctx.rng.random() < 0.7:
        kw["dpi"] = dpi
    else:
        dpi = 300

    def verify(fig):
        try:
            ok = os.path.exists(path) and open(path, "rb").read(8)[1:4] == b"PNG"
            if ctx.check(ok, "file-written", "no PNG at the requested place"):
                w, h = struct.unpack(">II", open(path, "rb").read(24)[16:24])
                want = fig.get_size_inches() * dpi
                ctx.check(abs(w - want[0]) <= 2 and abs(h - want[1]) <= 2, "file-dpi", "image %dx%d, figure %r at %d dpi" % (w, h, tuple(want), dpi))
            ctx.check(os.listdir(d) == ["plot.png"], "file-only")
        finally:
            shutil.rmtree(d)

    return kw, verify


def parts(fig_or_ax, interactive):
    """(curve Nx2, scatter groups [Nx2...], texts) of a frontier plot."""
    if interactive:
        lines = [t for t in fig_or_ax.data if t.mode == "lines"]
        pts = [t for t in fig_or_ax.data if t.mode == "markers"]
        f = lambda t: np.column_stack([np.asarray(t.x, float).ravel(), np.asarray(t.y, float).ravel()])
        return [f(t) for t in lines], [f(t) for t in pts], []
    return ([np.asarray(l.get_xydata(), float) for l in fig_or_ax.lines],
            [np.asarray(c.get_offsets(), float) for c in fig_or_ax.collections],
            [(t.get_text(), np.asarray(t.xy, float)) for t in fig_or_ax.texts])


def labels_and_assets(ctx, ax, interactive, scat, texts, mu, S, tk, show_assets, show_tickers, n_other):
    want = np.column_stack([np.sqrt(np.diag(S)), mu])
    groups = [g for g in scat if g.shape == want.shape and np.allclose(g, want, rtol=1e-9, atol=1e-12)]
    if show_assets:
        ctx.check(len(groups) >= 1 and len(scat) == n_other + 1, "asset-markers", "asset markers are not the volatilities and expected returns",
                  scatter=scat, want=want)
    else:
        ctx.check(len(scat) == n_other, "asset-markers-off", "%d scatter groups" % len(scat))
    if not interactive:
        if show_assets and show_tickers:
            ok = len(texts) == len(tk) and all(t == str(k) and np.allclose(xy, p, rtol=1e-9, atol=1e-12) for (t, xy), k, p in zip(texts, tk, want))
            ctx.check(ok, "asset-labels", "annotations %r for assets %r" % ([t for t, _ in texts][:6], tk[:6]))
        else:
            ctx.check(len(texts) == 0, "asset-labels-off", "unexpected annotations")
        ctx.check(ax.get_xlabel() == "Volatility" and ax.get_ylabel() == "Return", "axis-labels", (ax.get_xlabel(), ax.get_ylabel()))
    else:
        ctx.check(ax.layout.xaxis.title.text == "Volatility" and ax.layout.yaxis.title.text == "Return", "axis-labels")


# ------------------------------------------------------------------ EfficientFrontier


def ef(ctx):
    from pypfopt import plotting

    rng = ctx.rng
    P = gen.Problem(rng, solver="CLARABEL", neutral=False, nobj=0 if rng.random() < 0.8 else 1, hi=7,
                    cov_kind=str(rng.choice(["factor", "wishart", "block"])), tk=None)
    if not np.all(np.isfinite(P.ub)):
        raise Skip("unbounded")
    x = cp.Variable(P.n)
    L = ref.psd_root(P.S)
    ex, rc = P.extra_canon(x), P.ref_cons(x)
    low = ref_solve(P, cp.sum_squares(L @ x) + ex, rc, x)
    low0 = ref_solve(P, cp.sum_squares(L @ x), rc, x)
    top = ref_solve(P, -P.mu @ x, rc, x)
    if low is None or top is None or low0 is None:
        raise Skip("no reference extremes")
    lo_r, hi_r, lo_v = float(low @ P.mu), float(top @ P.mu), ref.vol(low0, P.S)
    interactive = rng.random() < 0.3
    kw, want_ax, other = ({}, None, None) if interactive else canvas(ctx)
    save, verify = ({}, lambda f: None) if interactive else output(ctx)
    show_assets, show_tickers = bool(rng.random() < 0.8), bool(rng.random() < 0.4)
    kw.update(save)
    if not show_assets or rng.random() < 0.5:
        kw["show_assets"] = show_assets
    if show_tickers or rng.random() < 0.5:
        kw["show_tickers"] = show_tickers
    if interactive:
        kw["interactive"] = True
    default = ctx.kind == "default"
    if default:
        if hi_r - 1e-4 <= lo_r + 1e-3:
            raise Skip("the frontier is a point")
        param, points = "return", int(rng.choice([2, 3, 5, 9]))
        if rng.random() < 0.1:
            points = int(rng.choice([25, 60, 100]))
        if points != 100:
            kw["points"] = points
        values = np.linspace(lo_r, hi_r - 1e-4, points)
        if rng.random() < 0.3:
            kw["ef_param"] = "return"
    else:
        param = str(rng.choice(["utility", "risk", "return"]))
        k = int(rng.integers(2, 7))
        if param == "utility":
            values = rng.uniform(0.05, 20, k)
            bad = [0.0, -1.0, -3.5]
        elif param == "risk":
            hv = max(ref.vol(top, P.S), lo_v * 1.3)
            values = rng.uniform(lo_v * 1.02 + 1e-3, hv * 1.2, k)
            # volatilities below any portfolio of these assets and budget are recognised at once, others only by the solver
            bad = [lo_v * 0.5, lo_v * 0.9, -0.1, lo_v * 0.01]
        else:
            values = rng.uniform(min(lo_r, 0) - 0.05, hi_r - 1e-3, k)
            bad = [hi_r + 0.02, hi_r + 0.5, float(P.mu.max()) * 10 + 1]
        values = list(np.sort(values) if rng.random() < 0.6 else values)
        nb = int(rng.choice([0, 1, 2], p=[0.35, 0.4, 0.25]))
        for b in rng.choice(bad, nb):
            values.insert(int(rng.integers(0, len(values) + 1)), float(b))
        values = [float(v) for v in values]
        form = str(rng.choice(["list", "array"]))
        kw.update(ef_param=param, ef_param_range=np.array(values) if form == "array" else values)
        if param == "return" and rng.random() < 0.4:
            kw.pop("ef_param")
    o = P.ef()
    ctx.note(param=param, values=list(values), problem=P.describe(), interactive=interactive)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ax = plotting.plot_efficient_frontier(o, **kw)
    if not interactive:
        verify(ax.figure)
        if want_ax is not None:
            ctx.check(ax is want_ax, "given-axes", "drawn on other axes than the given ones")
            ctx.check(not other.lines and not other.collections, "other-axes")
    curves, scat, texts = parts(ax, interactive)
    if not ctx.check(len(curves) == 1, "one-curve", "%d curves" % len(curves)):
        return
    labels_and_assets(ctx, ax, interactive, scat, texts, P.mu, P.S, list(o.tickers), show_assets, show_tickers, 0)
    curve = curves[0]
    if default and len(values) > 12:  # a long curve is judged at its ends and some points between
        if not ctx.check(len(curve) == len(values), "curve-complete", "%d points for %d requested" % (len(curve), len(values))):
            return
        some = np.unique(np.concatenate([[0, len(values) - 1], rng.integers(0, len(values), 5)]))
        values, curve = [values[i] for i in some], curve[some]
    # which parameters have a portfolio, by fresh optimisers
    attained, unsure = [], False
    with hooks.unmonitored():
        for v in values:
            f = P.ef()
            call = {"utility": f.max_quadratic_utility, "risk": f.efficient_risk, "return": f.efficient_return}[param]
            r, err = attempt(lambda: call(float(v)))
            if err is None:
                attained.append((v, P.port(r), ST.status))
                unsure |= ST.status != "optimal"
            else:
                unsure |= "inaccurate" in err or err.startswith("solver")
    truth = [v for v in values if (param == "utility" and v > 0) or (param == "risk" and v >= lo_v * 1.001) or (param == "return" and v <= hi_r - 1e-5)]
    if default:
        truth = list(values)
    if len(truth) != len(attained):
        if unsure or P.objs:
            ctx.count("unsure")
        else:
            ctx.check(False, "attained", "parameters with a portfolio: %r, solved: %r" % (truth, [a[0] for a in attained]), problem=P.describe())
        return
    ok = len(curve) == len(attained)
    if not ok and unsure:
        ctx.count("unsure")
        return
    if not ctx.check(ok, "curve-complete", "%d points for %d attainable of %d parameter values" % (len(curve), len(attained), len(values)), values=values, curve=curve):
        return
    for (v, w, st), (s, m) in zip(attained, curve):
        g = max(1.0, np.abs(w).sum())
        fs, fm = ref.vol(w, P.S), float(w @ P.mu)
        slack = (1 if st == "optimal" else 100)
        close = abs(s - fs) <= 3e-4 * slack * max(0.05, fs) and abs(m - fm) <= 1e-3 * slack * max(0.05, abs(fm))
        # the point itself is optimal for its parameter: nothing feasible is better
        if param == "utility":
            rw = ref_solve(P, -P.mu @ x + 0.5 * v * cp.sum_squares(L @ x) + ex, rc, x)
            val = lambda s, m: -m + 0.5 * v * s * s
            good = rw is None or P.objs or val(s, m) <= val(ref.vol(rw, P.S), float(rw @ P.mu)) + 2e-5 * g
        elif param == "risk":
            good = s <= v + 1e-4 * g
        else:
            good = m >= v - 1e-5 * g
        if not (close or (param != "return" and P.objs)) and not P.objs:
            # both optimal but not the same portfolio: the objective decides
            close = {"utility": abs((-m + 0.5 * v * s * s) - (-fm + 0.5 * v * fs * fs)) <= 2e-5 * g, "risk": abs(m - fm) <= 2e-4 * g,
                     "return": abs(s - fs) <= 3e-4 * g}[param]
        ctx.check(bool(close and good), "curve-point", "%s=%.6g: plotted (%.8g, %.8g), optimum (%.8g, %.8g)" % (param, v, s, m, fs, fm),
                  problem=P.describe(), values=values, curve=curve)
    if default:
        if not P.objs:
            ctx.close(curve[0, 0], lo_v, "range-start", rtol=1e-3, atol=1e-4, msg="the default curve starts at volatility %.8g" % curve[0, 0])
        ctx.close(curve[-1, 1], hi_r - 1e-4, "range-end", rtol=1e-3, atol=2e-4, msg="the default curve ends at return %.8g" % curve[-1, 1])
    ctx.event("curve", param=param, points=len(curve), values=len(values))
    ctx.sig("ef", param, default, len(values), len(values) - len(attained), interactive, show_assets, show_tickers, P.bkind, len(P.cons))


# ------------------------------------------------------------------ critical line


def ref_solve_lp(mu, n, ub):
    """Largest return under 0 <= w <= ub, sum 1: fill the best assets first."""
    left, tot = 1.0, 0.0
    for m in np.sort(mu)[::-1]:
        x = min(ub, left)
        tot, left = tot + x * m, left - x
    return tot


def cla(ctx):
    from pypfopt import CLA, plotting

    rng = ctx.rng
    n = int(rng.integers(2, 8))
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "int", "lookalike"])))
    S, _ = gen.covariance(rng, n, str(rng.choice(["factor", "wishart"])))
    mu = rng.permutation(np.sort(rng.normal(0.08, 0.1, n)) + 2e-3 * np.arange(n))
    mu[int(rng.integers(n))] = mu.max() + 0.05 + abs(min(0, mu.max()))
    ub = 1.0 if rng.random() < 0.6 else float(rng.choice([max(0.5, 1.5 / n), 0.9]))
    o = CLA(pd.Series(mu, index=tk), pd.DataFrame(S, index=tk, columns=tk), weight_bounds=(0, ub))
    pre = str(rng.choice(["none", "max_sharpe", "min_volatility", "frontier", "both"]))
    npts = int(rng.choice([5, 12, 40]))
    if pre in ("max_sharpe", "both"):
        o.max_sharpe()
    if pre in ("frontier", "both"):
        o.efficient_frontier(points=npts)
    if pre == "min_volatility":
        o.min_volatility()
    before = None if o.weights is None else np.array(o.weights, copy=True)
    interactive = rng.random() < 0.35
    kw, want_ax, other = ({}, None, None) if interactive else canvas(ctx)
    save, verify = ({}, lambda f: None) if interactive else output(ctx)
    kw.update(save)
    show_assets, show_tickers = bool(rng.random() < 0.8), bool(rng.random() < 0.4)
    kw.update(show_assets=show_assets, show_tickers=show_tickers, points=npts)
    if interactive:
        kw["interactive"] = True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ax = plotting.plot_efficient_frontier(o, **kw)
    if not interactive:
        verify(ax.figure)
        if want_ax is not None:
            ctx.check(ax is want_ax and not other.lines, "given-axes")
    curves, scat, texts = parts(ax, interactive)
    if not ctx.check(len(curves) == 1, "one-curve", "%d curves" % len(curves)):
        return
    labels_and_assets(ctx, ax, interactive, scat, texts, mu, S, list(o.tickers), show_assets, show_tickers, 1)
    w = np.asarray(o.weights, float).ravel()
    if before is not None:
        ctx.check(np.array_equal(np.asarray(o.weights), before), "weights-unchanged", "plotting changed the stored portfolio")
    if pre in ("none", "frontier"):
        # no portfolio yet: the documented maximum Sharpe portfolio is computed and marked
        with hooks.unmonitored():
            f = CLA(pd.Series(mu, index=tk), pd.DataFrame(S, index=tk, columns=tk), weight_bounds=(0, ub))
            r = f.max_sharpe()
        if before is None:
            w = np.array([r[t] for t in tk])
    mark = [ref.vol(w, S), float(w @ mu)]
    found = [g for g in scat if g.shape == (1, 2) and np.allclose(g[0], mark, rtol=1e-5, atol=1e-7)]
    ctx.check(len(found) >= 1, "current-marker", "no marker at the current portfolio %r (scatter groups %r)" % (mark, [g.tolist() for g in scat][:3]))
    curve = curves[0]
    x = cp.Variable(n)
    L = ref.psd_root(S)
    rc = ref.base_cons(x, np.zeros(n), np.full(n, ub), 1.0)
    low = ref.solve(cp.sum_squares(L @ x), rc, x)[1]
    top = ref_solve_lp(mu, n, ub)
    if low is None or top is None:
        raise Skip("no reference extremes")
    top_r = float(top)
    ctx.close(curve[:, 1].max(), top_r, "curve-span", rtol=1e-6, atol=1e-7, msg="highest return on the curve")
    ctx.close(curve[:, 0].min(), ref.vol(low, S), "curve-span", rtol=1e-5, atol=1e-6, msg="lowest volatility on the curve")
    for k in rng.choice(len(curve), min(6, len(curve)), replace=False):
        s, m = curve[int(k)]
        y = ref.solve(cp.sum_squares(L @ x), rc + [mu @ x >= m - 1e-9], x)[1]
        if y is None:
            continue
        ctx.close(s, ref.vol(y, S), "curve-point", rtol=2e-5, atol=2e-6, msg="return %.8g: plotted volatility %.8g, least %.8g" % (m, s, ref.vol(y, S)))
    ctx.check(np.all(np.diff(curve[:, 1]) <= 1e-9) or np.all(np.diff(curve[:, 1]) >= -1e-9), "curve-order", "the curve runs back and forth")
    ctx.sig("cla", pre, n, npts, interactive, show_assets, show_tickers)


# ------------------------------------------------------------------ matrices, weights, dendrograms


def cov(ctx):
    from pypfopt import plotting

    rng = ctx.rng
    n = int(rng.integers(2, 13))
    tk, tkind = gen.tickers(rng, n, str(rng.choice(["random", "int", "lookalike", "alpha"])))
    S, _ = gen.covariance(rng, n)
    form = str(rng.choice(["frame", "frame", "array"]))
    arg = pd.DataFrame(S, index=tk, columns=tk) if form == "frame" else S.copy()
    corr, show = bool(rng.random() < 0.45), bool(rng.random() < 0.75)
    kw, verify = output(ctx)
    if corr or rng.random() < 0.5:
        kw["plot_correlation"] = corr
    if not show or rng.random() < 0.5:
        kw["show_tickers"] = show
    if corr and np.linalg.eigvalsh(S)[0] < 1e-9:
        raise Skip("singular covariance")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ax = plotting.plot_covariance(arg, **kw)
    verify(ax.figure)
    want = S / np.sqrt(np.outer(np.diag(S), np.diag(S))) if corr else S
    ok = len(ax.images) == 1
    if ctx.check(ok, "cov-images", "%d images" % len(ax.images)):
        img = np.asarray(ax.images[0].get_array(), float)
        ctx.close(img, want, "cov-image", rtol=1e-9, atol=1e-12, msg="displayed matrix (correlation=%s)" % corr)
        ext = ax.images[0].get_extent()
        ctx.check(np.allclose(sorted(ext[:2]), [-0.5, n - 0.5]) and np.allclose(sorted(ext[2:]), [-0.5, n - 0.5]), "cov-extent", ext)
    if show:
        names = [str(t) for t in (tk if form == "frame" else range(n))]
        for ticks, labs in ((ax.get_xticks(), ax.get_xticklabels()), (ax.get_yticks(), ax.get_yticklabels())):
            ctx.check(list(ticks) == list(range(n)) and [t.get_text() for t in labs] == names, "cov-labels",
                      "labels %r at %r" % ([t.get_text() for t in labs][:6], list(ticks)[:6]), want=names)
    else:
        shown = [t.get_text() for t in ax.get_xticklabels()]
        if form == "frame" and tkind in ("random", "alpha"):
            ctx.check(not any(str(t) in shown for t in tk), "cov-labels-off", shown[:6])
    ctx.sig("cov", n, form, corr, show)


def weights(ctx):
    from pypfopt import plotting
    import collections

    rng = ctx.rng
    n = int(rng.integers(1, 15))
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "int", "lookalike", "alpha"])))
    w = rng.normal(0.1, 0.3, n) if rng.random() < 0.5 else rng.dirichlet(np.ones(n))
    if rng.random() < 0.3:
        w[rng.random(n) < 0.4] = 0.0
    if rng.random() < 0.2:
        w = np.round(w, 1)  # ties
    d = (dict if rng.random() < 0.5 else collections.OrderedDict)(zip(tk, [float(x) for x in w]))
    kw, want_ax, other = canvas(ctx)
    save, verify = output(ctx)
    kw.update(save)
    ax = plotting.plot_weights(d, **kw)
    verify(ax.figure)
    if want_ax is not None:
        ctx.check(ax is want_ax and not other.patches, "given-axes")
    bars = sorted(((p.get_y() + p.get_height() / 2, p.get_width(), p.get_x()) for p in ax.patches))
    lab = {float(y): t.get_text() for y, t in zip(ax.get_yticks(), ax.get_yticklabels())}
    if ctx.check(len(bars) == n and len(lab) == n, "bar-count", "%d bars and %d labels for %d weights" % (len(bars), len(lab), n)):
        pairs = [(lab.get(round(y, 6)), wd if x == 0 or wd == 0 or x < 0 else wd) for y, wd, x in bars]
        shown = dict(pairs)
        want = {str(k): v for k, v in d.items()}
        ok = len(want) == n and set(shown) == set(want) and all(abs(shown[k] - want[k]) <= 1e-12 for k in want)
        ctx.check(ok, "bars", "bars %r for weights %r" % (pairs[:6], list(d.items())[:6]))
        top_first = ax.yaxis_inverted()
        seq = [wd for _, wd in (pairs if top_first else pairs[::-1])]
        ctx.check(all(a >= b - 1e-15 for a, b in zip(seq, seq[1:])), "bar-order", "from the top: %r" % seq)
    ctx.check(ax.get_xlabel() == "Weight", "axis-labels")
    ctx.sig("weights", n, bool((w < 0).any()), bool((w == 0).any()), type(tk[0]).__name__, want_ax is not None)


def dend(ctx):
    from pypfopt import HRPOpt, plotting

    rng = ctx.rng
    n = int(rng.integers(3, 11))
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "lookalike", "alpha", "int"])))
    R, _ = gen.returns_panel(rng, n, 60, tk)
    o = HRPOpt(R)
    solved = rng.random() < 0.75
    if solved:
        o.optimize(linkage_method=str(rng.choice(["single", "average", "complete", "ward"])))
    show = bool(rng.random() < 0.75)
    kw, want_ax, other = canvas(ctx)
    save, verify = output(ctx)
    kw.update(save)
    if not show or rng.random() < 0.5:
        kw["show_tickers"] = show
    Z0 = None if o.clusters is None else np.array(o.clusters, copy=True)
    w0 = None if o.weights is None else np.array(o.weights, copy=True)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ax = plotting.plot_dendrogram(o, **kw)
    verify(ax.figure)
    if want_ax is not None:
        ctx.check(ax is want_ax and not other.collections, "given-axes")
    ctx.check(solved or any("optimized" in str(r.message) for r in rec), "unsolved-warning", "no warning for an unsolved portfolio")
    if solved:
        ctx.check(np.array_equal(Z0, o.clusters) and np.array_equal(w0, o.weights), "portfolio-unchanged", "plotting changed the solved portfolio")
    Z = np.asarray(o.clusters)
    sets = [frozenset([str(t)]) for t in tk]
    want = []
    for a, b, h, _ in Z:
        s = sets[int(a)] | sets[int(b)]
        sets.append(s)
        want.append((s, float(h), frozenset([sets[int(a)], sets[int(b)]])))
    if min([h for _, h, _ in want]) <= 1e-9 or len({round(h, 9) for _, h, _ in want}) < n - 1:
        raise Skip("coinciding merge heights")
    segs = [s for c in ax.collections for s in c.get_segments()]
    if not ctx.check(len(segs) == n - 1, "dendrogram-links", "%d links for %d merges" % (len(segs), n - 1)):
        return
    if show:
        ticks, labs = list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()]
        pos = {round(float(x), 6): frozenset([l]) for x, l in zip(ticks, labs)}
        ctx.check(sorted(labs) == sorted(str(t) for t in tk), "dendrogram-labels", "labels %r" % labs)
    else:
        labs = [t.get_text() for t in ax.get_xticklabels() if t.get_text()]
        ctx.check(not labs, "dendrogram-labels-off", labs)
        pos = {}
    got = []
    for s in sorted(segs, key=lambda s: s[:, 1].max()):
        s = np.asarray(s)
        h = float(s[:, 1].max())
        if show:
            left, right = pos.get(round(float(s[0, 0]), 6)), pos.get(round(float(s[-1, 0]), 6))
            if left is None or right is None:
                ctx.check(False, "dendrogram", "a link starts at no cluster", segment=s)
                return
            got.append((left | right, h, frozenset([left, right])))
            pos[round(float((s[0, 0] + s[-1, 0]) / 2), 6)] = left | right
        else:
            got.append((None, h, None))
    hs = sorted(h for _, h, _ in want)
    ctx.close(sorted(h for _, h, _ in got), hs, "dendrogram-heights", rtol=1e-9, atol=1e-12)
    if show:
        byh = {round(h, 9): (s, k) for s, h, k in want}
        bad = [(sorted(s), h) for s, h, k in got if byh.get(round(h, 9)) != (s, k)]
        ctx.check(not bad, "dendrogram", "merges shown under the wrong labels: %r" % bad[:3], tickers=tk)
    ctx.sig("dend", n, solved, show, type(tk[0]).__name__, len(save))
