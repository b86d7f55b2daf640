"""B03 View specifications, Idzorek confidences, default uncertainty."""

from .bl import *

BUDGET = {"quick": {"order": 3990, "explicit": 3990, "unknown": 960, "idzorek": 3990, "many": 2400, "zero": 1600, "range": 1280, "tau": 3190},
          "thorough": {"order": 79800, "explicit": 79800, "unknown": 19200, "idzorek": 79800, "many": 48000, "zero": 32000, "range": 25600, "tau": 63800}}
RULE = ("Each case states one set of views in two ways (mapping orders, series, explicit picking matrix) or with confidences, and "
        "compares posteriors with each other and with the closed form; misuse cases must be refused.")
MIN = {"chk:view-order": 60, "chk:explicit-same": 60, "chk:idzorek-fraction": 60, "chk:tau-free": 50, "chk:refused-confidence": 30}
ASSUMES = ["a view of zero confidence beside others: returns stated as fractions, not percentages"]


def run_case(ctx):
    rng = ctx.rng
    globals()["k_" + ctx.kind](ctx, rng)


def rets(m):
    return np.asarray(m.bl_returns())


def shuffle_views(rng, b, form):
    it = list(b.kw["absolute_views"].items())
    p = [int(i) for i in rng.permutation(len(it))]
    it = [it[i] for i in p]
    d = dict(it)
    return (d if form == "dict" else pd.Series(list(d.values()), index=list(d))), p


def k_order(ctx, rng):
    b = BL(rng, views=str(rng.choice(["dict", "vseries"])), omega=str(rng.choice(["none", "default"])))
    v, _ = shuffle_views(rng, b, str(rng.choice(["dict", "series"])))
    m1, m2 = b.model(), b.model(absolute_views=v)
    ctx.close(rets(m1), rets(m2), "view-order", rtol=1e-8, atol=1e-10, problem=b.describe())
    ctx.close(np.asarray(m1.bl_cov()), np.asarray(m2.bl_cov()), "view-order-cov", rtol=1e-8, atol=1e-11)
    mean, _ = b.posterior()
    ctx.close(rets(m1), mean, "view-meaning", rtol=1e-6, atol=1e-8)
    ctx.sig("order", *b.signature())


def k_explicit(ctx, rng):
    b = BL(rng, views=str(rng.choice(["dict", "vseries"])), omega=str(rng.choice(["none", "diag", "idzorek"])))
    kw = dict(b.kw)
    kw.pop("absolute_views")
    from pypfopt import BlackLittermanModel

    kw["Q"] = np.array(b.Q)
    kw["P"] = np.array(b.P) if rng.random() < 0.6 else pd.DataFrame(b.P, columns=b.tk)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m2 = BlackLittermanModel(b.arg_cov, **kw)
    m1 = b.model()
    ctx.close(rets(m1), rets(m2), "explicit-same", rtol=1e-9, atol=1e-11, problem=b.describe())
    ctx.close(np.asarray(m1.bl_cov()), np.asarray(m2.bl_cov()), "explicit-same", rtol=1e-9, atol=1e-11)
    if b.K == b.n and rng.random() < 0.5:
        # one view per asset in the universe's order needs no picking matrix
        q = np.zeros(b.n)
        for t, x in dict(b.kw["absolute_views"]).items():
            q[list(b.tk).index(t)] = x
        kw = dict(b.kw)
        kw.pop("absolute_views")
        kw.pop("omega", None)
        kw.pop("view_confidences", None)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m3 = BlackLittermanModel(b.arg_cov, Q=q, **kw)
        b1 = b.model(omega=None)
        ctx.close(rets(b1), rets(m3), "identity-default", rtol=1e-8, atol=1e-10)
    ctx.sig("explicit", *b.signature())


def k_unknown(ctx, rng):
    b = BL(rng, views=str(rng.choice(["dict", "vseries"])), omega="none")
    v = dict(b.kw["absolute_views"])
    bad = "no such asset" if rng.random() < 0.5 else 987654321
    items = list(v.items())
    items.insert(int(rng.integers(len(items) + 1)), (bad, 0.1))
    v = dict(items)
    if rng.random() < 0.5:
        v = pd.Series(list(v.values()), index=list(v))
    m, err = attempt(lambda: b.model(absolute_views=v))
    ctx.check(err is not None and err.startswith("value"), "unknown-asset", "a view on an unknown asset gave %r" % (err,))
    ctx.sig("unknown", b.n, type(v).__name__)


def k_idzorek(ctx, rng):
    b = BL(rng, K=1, omega="idzorek")
    c = float(rng.choice([1.0, 0.5, 0.25, 0.01, float(rng.uniform(0.001, 1)), float(10.0 ** rng.uniform(-6, -2)), float(1 - 10.0 ** rng.uniform(-8, -2))]))
    vc = [[c], np.array([c]), np.array([[c]]), (c,), pd.Series([c])][int(rng.integers(5))]
    r = rets(b.model(view_confidences=vc))
    prior, view = float(b.P[0] @ b.pi), float(b.Q[0])
    post = float(b.P[0] @ r)
    gap = abs(view - prior)
    ctx.close(post, prior + c * (view - prior), "idzorek-fraction", rtol=0, atol=1e-6 * c * gap + 1e-12 * (gap + abs(prior)) + 1e-15, confidence=c, problem=b.describe())
    # and the whole vector moves along cov @ p
    p = b.P[0]
    ctx.close(r, b.pi + b.S @ p / (p @ b.S @ p) * c * (view - prior), "idzorek-direction", rtol=1e-6, atol=1e-8)
    ctx.sig("idz", *b.signature(), round(c, 1) if 0.01 <= c <= 0.99 else "%.0e" % min(c, 1 - c))


def k_many(ctx, rng):
    """Several views: each view's own uncertainty is (1-c)/c times tau p'Sp."""
    b = BL(rng, omega="idzorek")
    ctx.note(**b.describe())
    if b.gain() > 1e8:
        raise Skip("ill-conditioned view system")
    m = b.model()
    ctx.close(np.asarray(m.omega, float), b.omega, "idzorek-omega", rtol=1e-8, atol=1e-12)
    mean, cov = b.posterior()
    ctx.close(rets(m), mean, "idzorek-posterior", rtol=1e-6, atol=1e-8)
    # the public helper says the same
    from pypfopt import BlackLittermanModel

    om = BlackLittermanModel.idzorek_method(np.asarray(b.conf), b.S, b.pi.reshape(-1, 1), b.Q.reshape(-1, 1), b.P, b.tau, b.delta)
    ctx.close(om, b.omega, "idzorek-helper", rtol=1e-8, atol=1e-12)
    ctx.sig("many", *b.signature())


def k_zero(ctx, rng):
    b = BL(rng, omega="idzorek", views=str(rng.choice(["dict", "PQ"])))
    z = np.zeros(b.K)
    r = rets(b.model(view_confidences=list(z) if rng.random() < 0.5 else z))
    mv = float(np.abs(b.Q - b.P @ b.pi).max()) * float(np.abs(b.tau * b.S @ b.P.T).max()) * b.K
    ctx.check(np.abs(r - b.pi).max() <= mv * 1e-4 + 1e-12, "zero-confidence", "prior moved by %.3g" % np.abs(r - b.pi).max())
    if b.K > 1 and b.unit <= 1:
        # (the library's "very big" uncertainty is 1e6, big beside variances of returns stated as fractions)
        # an ignored view beside effective ones changes nothing
        c = np.array(b.conf)
        k = int(rng.integers(b.K))
        c[k] = 0.0
        keep = [i for i in range(b.K) if i != k]
        sub = ref.bl_posterior(b.S, b.pi, b.P[keep], b.Q[keep], b.omega[np.ix_(keep, keep)], b.tau)[0]
        if np.linalg.cond(b.tau * b.P[keep] @ b.S @ b.P[keep].T + b.omega[np.ix_(keep, keep)]) < 1e6:
            ctx.close(rets(b.model(view_confidences=c)), sub, "zero-confidence-one", rtol=1e-4, atol=2e-6)
    ctx.sig("zero", *b.signature())


def k_range(ctx, rng):
    b = BL(rng, omega="idzorek")
    c = np.array(b.conf)
    c[int(rng.integers(b.K))] = float(rng.choice([-0.01, 1.01, 2.0, -1.0, 1 + 1e-9, 50]))
    m, err = attempt(lambda: b.model(view_confidences=c if rng.random() < 0.5 else list(c)))
    ctx.check(err is not None and err.startswith("value"), "refused-confidence", "confidences %r accepted (%r)" % (c, err))
    m, err = attempt(lambda: b.model(view_confidences=None))
    ctx.check(err is not None, "confidence-missing")
    m, err = attempt(lambda: b.model(view_confidences=list(b.conf) + [0.5]))
    ctx.check(err is not None, "confidence-count")
    ctx.sig("range", b.n, b.K)


def k_tau(ctx, rng):
    b = BL(rng, omega=str(rng.choice(["none", "default", "idzorek"])))
    if b.gain() > 1e8:
        raise Skip("ill-conditioned view system")
    t2 = float(rng.choice([0.001, 0.1, 0.6, 1.0]))
    m1, m2 = b.model(), b.model(tau=t2)
    ctx.close(rets(m1), rets(m2), "tau-free", rtol=1e-6, atol=1e-8, taus=(b.tau, t2), problem=b.describe())
    if b.oform != "idzorek":
        om = np.asarray(m1.omega, float)
        ctx.close(om, np.diag(np.diag(b.P @ b.S @ b.P.T) * b.tau), "default-omega", rtol=1e-9, atol=1e-14)
    ctx.sig("tau", *b.signature(), t2)
