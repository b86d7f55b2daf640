"""R01 Covariance estimators against their definitions."""

from .panels import *
from pypfopt import risk_models  # noqa: E402

BUDGET = {"quick": {"sample": 3160, "semi": 3160, "exp": 1890, "linear": 1580, "mcd": 200},
          "thorough": {"sample": 63200, "semi": 63200, "exp": 37800, "linear": 31600, "mcd": 4000}}
RULE = ("Each case draws a price panel (late listings, delistings, gaps, empty rows), form (prices, returns, array), frequency, log flag and "
        "estimator options, and compares the estimate with its definition evaluated element by element, plus label, symmetry and "
        "positive-semidefiniteness monitors.  The robust (minimum covariance determinant) estimate is compared with scikit-learn's "
        "on the complete rows of independently computed returns, for the same random state.")
MIN = {"chk:sample": 150, "chk:semi": 150, "chk:exp": 100, "chk:linear": 60, "chk:mcd": 60}
ASSUMES = ["at least three overlapping observations for each pair of assets"]


def dispatch(ctx, rng, name, fn, arg, kw):
    """Call directly or through the generic entry point."""
    if rng.random() < 0.4:
        nm = name
        if name == "semicovariance" and rng.random() < 0.5:
            nm = "semivariance"
        extra = {} if name == "sample_cov" and rng.random() < 0.5 else {"method": nm}
        return quiet(lambda: risk_models.risk_matrix(arg, **extra, **kw)), "dispatcher"
    return quiet(lambda: fn(arg, **kw)), "direct"


def run_case(ctx):
    rng = ctx.rng
    d = Data(rng)
    ctx.note(**d.describe())
    if not d.usable:
        raise Skip("too few observations")
    globals()["k_" + ctx.kind](ctx, rng, d)


def options(rng, kw):
    fm = "spectral"
    if rng.random() < 0.25:
        fm = str(rng.choice(["spectral", "diag"]))
        kw["fix_method"] = fm
    return fm


def compare(ctx, d, C, D, fm, tag, how):
    V = matrix_rules(ctx, C, d.labels, tag)
    want = psd_target(D, fm)
    s = float(np.abs(D).max())
    ctx.close(V, want, tag, rtol=1e-8, atol=1e-10 * s, problem=d.describe(), how=how, fix_method=fm)
    ctx.sig(tag, *d.signature(how, want is D, fm))
    ctx.event("estimate", what=tag, trace=float(np.trace(V)))


def k_sample(ctx, rng, d):
    kw = d.kw()
    fm = options(rng, kw)
    C, how = dispatch(ctx, rng, "sample_cov", risk_models.sample_cov, d.arg(), kw)
    compare(ctx, d, C, ref.pair_cov(d.R) * d.freq, fm, "sample", how)


def k_semi(ctx, rng, d):
    kw = d.kw()
    fm = options(rng, kw)
    b = 0.000079
    if rng.random() < 0.7:
        b = float(rng.choice([0.0, 0.0005, -0.002, 0.01, 0.1]))
        kw["benchmark"] = b
    C, how = dispatch(ctx, rng, "semicovariance", risk_models.semicovariance, d.arg(), kw)
    X = d.R.to_numpy(float)
    Z = np.where(np.isnan(X), 0.0, np.minimum(X - b, 0.0))
    D = np.zeros((d.n, d.n))
    for z in Z:
        D += np.outer(z, z)
    D = D / len(Z) * d.freq
    if np.abs(D).max() < 1e-12:
        raise Skip("no drops")
    compare(ctx, d, C, D, fm, "semi", how)


def k_exp(ctx, rng, d):
    kw = d.kw()
    fm = options(rng, kw)
    span = 180
    if rng.random() < 0.8:
        span = int(rng.choice([1, 2, 3, 5, 10, 30, 60, 180, 500, 10**6]))
        kw["span"] = span
    C, how = dispatch(ctx, rng, "exp_cov", risk_models.exp_cov, d.arg(), kw)
    X = d.R.to_numpy(float)
    D = np.zeros((d.n, d.n))
    Y = X - np.nanmean(X, 0)
    for i in range(d.n):
        for j in range(d.n):
            D[i, j] = ref.ew_mean(Y[:, i] * Y[:, j], span) * d.freq
    compare(ctx, d, C, D, fm, "exp", how)


def k_linear(ctx, rng, d):
    """Linear in frequency, quadratic in the returns' scale, invariant to price units."""
    nm = str(rng.choice(["sample_cov", "semicovariance", "exp_cov"]))
    fn = getattr(risk_models, nm)
    form = d.form
    A = np.asarray(quiet(lambda: fn(d.arg(), frequency=252, **{k: v for k, v in d.kw().items() if k != "frequency"})))
    kw = d.kw()
    kw["frequency"] = f = int(rng.choice([1, 12, 52, 365]))
    B = np.asarray(quiet(lambda: fn(d.arg(), **kw)))
    ctx.close(B * 252 / f, A, "linear", rtol=1e-7, atol=1e-9 * np.abs(A).max(), what=nm)
    if form == "prices":
        P2 = d.P * np.exp(rng.normal(0, 2, d.n))
        ctx.close(quiet(lambda: fn(P2, **kw)), B, "price-units", rtol=1e-6, atol=1e-9 * np.abs(B).max(), what=nm)
    try:
        risk_models.risk_matrix(d.P, method="no such model")
        ctx.check(False, "unknown-model")
    except NotImplementedError:
        ctx.check(True, "unknown-model")
    ctx.sig("linear", nm, *d.signature())


def k_mcd(ctx, rng, d):
    """The robust estimate: scikit-learn's, on the complete return rows, whatever happened to the generator before."""
    import sklearn.covariance

    X = d.R.to_numpy(float)
    X = X[~np.isnan(X).any(axis=1)]
    if len(X) < 3 * d.n + 5:
        raise Skip("too few complete rows")
    kw = d.kw()
    fm = options(rng, kw)
    seed = 0 if rng.random() < 0.25 else int(rng.integers(1000))
    kw["random_state"] = seed
    if rng.random() < 0.5:
        np.random.seed(int(rng.integers(1000)))
    try:
        D = np.asarray(quiet(lambda: sklearn.covariance.fast_mcd(X, random_state=seed)[1])) * d.freq
        Y = X * (1 + 1e-13 * rng.normal(size=X.shape))
        E = np.asarray(quiet(lambda: sklearn.covariance.fast_mcd(Y, random_state=seed)[1])) * d.freq
    except ValueError as e:
        raise Skip(str(e))
    if not np.isfinite(D).all():
        raise Skip("no robust estimate")
    if not np.allclose(D, E, rtol=1e-8, atol=1e-10 * np.abs(D).max()):
        raise Skip("the subset chosen depends on rounding")
    C = quiet(lambda: risk_models.min_cov_determinant(d.arg(), **kw))
    compare(ctx, d, C, D, fm, "mcd", "direct")
    again = quiet(lambda: risk_models.min_cov_determinant(d.arg(), **kw))
    ctx.check(np.array_equal(np.asarray(C), np.asarray(again)), "mcd-repeat", "two runs with random_state=%d differ" % seed)
