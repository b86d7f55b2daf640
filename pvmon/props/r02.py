"""R02 Shrinkage estimators against element-by-element published formulas."""

from .panels import *
from pypfopt import risk_models  # noqa: E402

BUDGET = {"quick": {"manual": 4570, "published": 6100, "order": 3050},
          "thorough": {"manual": 91400, "published": 122000, "order": 61000}}
RULE = ("Each case draws a price panel, form, frequency and log flag, shrinks its covariance manually or with an estimated intensity, and "
        "compares matrix and intensity with an independent element-by-element evaluation of the published formulas, and across asset orders.")
MIN = {"chk:manual": 100, "chk:shrunk": 150, "chk:intensity": 120, "chk:order": 60}
ASSUMES = ["at least two assets for the estimated intensities; missing returns count as zero in them"]

METHODS = {"ledoit_wolf": (dict(), ref.shrink_constant_variance),
           "ledoit_wolf_constant_variance": (dict(shrinkage_target="constant_variance"), ref.shrink_constant_variance),
           "ledoit_wolf_single_factor": (dict(shrinkage_target="single_factor"), ref.shrink_single_factor),
           "ledoit_wolf_constant_correlation": (dict(shrinkage_target="constant_correlation"), ref.shrink_constant_correlation),
           "oracle_approximating": (None, ref.shrink_oas)}


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def estimator(d):
    return quiet(lambda: risk_models.CovarianceShrinkage(d.arg(), **d.kw()))


def k_manual(ctx, rng):
    d = Data(rng)
    if not d.usable:
        raise Skip("too few observations")
    ctx.note(**d.describe())
    e = estimator(d)
    delta = float(rng.choice([0, 1, 0.2, 0.5, float(rng.uniform())]))
    if delta == 0.2 and rng.random() < 0.7:
        C = quiet(lambda: e.shrunk_covariance())
    else:
        C = quiet(lambda: e.shrunk_covariance(delta) if rng.random() < 0.5 else e.shrunk_covariance(delta=delta))
    V = matrix_rules(ctx, C, d.labels, "manual")
    S = ref.pair_cov(d.R)
    want = (1 - delta) * S + delta * np.eye(d.n) * np.trace(S) / d.n
    ctx.close(V, psd_target(want * d.freq), "manual", rtol=1e-8, atol=1e-10 * np.abs(S).max() * d.freq, delta=delta, problem=d.describe())
    ctx.close(e.delta, delta, "manual-intensity", rtol=0, atol=0)
    ctx.sig("manual", *d.signature(delta in (0, 1)))


def dominated(rng):
    """Few periods driven by one asset's factor: the estimated intensity can leave [0, 1] before it is cut."""
    d = Data(rng, n=int(rng.integers(2, 6)), T=int(rng.integers(5, 14)), missing="none", log=False, form=str(rng.choice(["prices", "returns"])))
    X = ref.simple_returns(d.P).to_numpy(float)
    X = X * float(rng.choice([1, 0.3])) + float(rng.choice([1, 3, 10])) * X[:, :1]
    X = np.maximum(X, -0.7)
    V = 50 * np.vstack([np.ones(d.n), np.cumprod(1 + X, axis=0)])
    d.P = pd.DataFrame(V, index=d.P.index[: len(V)], columns=d.tk)
    d.R = ref.simple_returns(d.P)
    d.kind = "dominated"
    return d


def k_published(ctx, rng):
    gaps = rng.random() < 0.25
    d = Data(rng, missing=None if gaps else "none", n_lo=2)
    if d.n < 2 or not d.usable:
        raise Skip("one asset or too few observations")
    if not gaps and rng.random() < 0.5:
        d = dominated(rng)
    ctx.note(**d.describe())
    nm = str(rng.choice(list(METHODS)))
    kw, fn = METHODS[nm]
    via = rng.random() < 0.35
    X = d.R.dropna(how="all").to_numpy(float)
    if np.isnan(X).any():  # a missing return counts as zero (and the sample covariance is pairwise)
        kwf = dict(S=ref.pair_cov(d.R)) if fn is ref.shrink_constant_correlation else {}
        delta, S, F = fn(np.nan_to_num(X), **kwf)
        ctx.count("published_with_gaps")
    else:
        delta, S, F = fn(X)
    if via:
        C = quiet(lambda: risk_models.risk_matrix(d.arg(), method=nm, **d.kw()))
        got = None
    else:
        e = estimator(d)
        if rng.random() < 0.3:
            quiet(lambda: e.shrunk_covariance(0.7))
            quiet(lambda: e.oracle_approximating())
        C = quiet(lambda: e.oracle_approximating() if kw is None else e.ledoit_wolf(**kw))
        got = float(e.delta)
        ctx.check(0 <= got <= 1, "intensity-range", got)
        if delta is not None:
            ctx.close(got, delta, "intensity", rtol=1e-5, atol=1e-7, method=nm, problem=d.describe())
    V = matrix_rules(ctx, C, d.labels, "shrunk")
    sc = np.abs(S).max() * d.freq
    if delta is None:  # target equals sample: any intensity is right
        ctx.close(V, psd_target(S * d.freq), "shrunk", rtol=1e-6, atol=1e-8 * sc, method=nm)
    else:
        ctx.close(V, psd_target(((1 - delta) * S + delta * F) * d.freq), "shrunk", rtol=1e-5, atol=1e-7 * sc, method=nm, problem=d.describe())
        if got is not None:
            ctx.close(V, psd_target(((1 - got) * S + got * F) * d.freq), "combination", rtol=1e-7, atol=1e-9 * sc, method=nm)
    ctx.event("shrinkage", method=nm, intensity=delta)
    ctx.sig("pub", nm, via, *d.signature(None if delta is None else (delta == 0, delta == 1)))


def k_order(ctx, rng):
    d = Data(rng, missing="none", n_lo=2, form=str(rng.choice(["prices", "returns"])))
    if d.n < 2:
        raise Skip("one asset")
    o = [int(i) for i in rng.permutation(d.n)]
    nm = str(rng.choice(list(METHODS) + ["shrunk"]))
    kw = d.kw()

    def go(x):
        e = risk_models.CovarianceShrinkage(x, **kw)
        if nm == "shrunk":
            return e.shrunk_covariance(0.3)
        k, _ = METHODS[nm]
        return e.oracle_approximating() if k is None else e.ledoit_wolf(**k)

    X = d.arg()
    A = quiet(lambda: go(X))
    B = quiet(lambda: go(X.iloc[:, o]))
    ctx.check(list(B.columns) == [d.tk[i] for i in o], "order-labels")
    ctx.close(B, np.asarray(A)[np.ix_(o, o)], "order", rtol=1e-6, atol=1e-8 * np.abs(np.asarray(A)).max(), method=nm)
    try:
        risk_models.CovarianceShrinkage(d.P).ledoit_wolf(shrinkage_target="nothing")
        ctx.check(False, "unknown-target")
    except NotImplementedError:
        ctx.check(True, "unknown-target")
    ctx.sig("order", nm, *d.signature())
