"""O03 Hierarchical risk parity against a separately written recursion."""

from .common import *

METHODS = ["single", "complete", "average", "weighted", "ward", "centroid", "median"]
BUDGET = {"quick": {"returns": 1400, "cov": 840, "both": 560, "order": 450, "misuse": 112},
          "thorough": {"returns": 28000, "cov": 16800, "both": 11200, "order": 9000, "misuse": 2200}}
RULE = ("Each case draws a returns panel or covariance matrix, a linkage method and label kind, optimises, and compares the weights "
        "with an independent recursive implementation over the cluster tree (skipping inputs whose cluster tree is decided by "
        "rounding), checking positivity, budget and label set.")
MIN = {"chk:hrp-weights": 200, "chk:hrp-same-data": 30, "chk:hrp-relabel": 20}
ASSUMES = ["scipy's linkage and leaf order"]


def stable(C, method):
    """Does the merge order survive rounding-size perturbations of the correlations?"""
    import scipy.cluster.hierarchy as sch

    n = len(C)
    iu = np.triu_indices(n, 1)
    base = None
    for e in (0.0, 2e-6, -2e-6):
        for k in range(1 if e == 0 else 3):
            r = np.random.default_rng(k)
            D = np.sqrt(np.clip((1 - C) / 2, 0, 1))[iu]
            D = D * (1 + e * r.uniform(-1, 1, len(D)))
            o = list(sch.leaves_list(sch.linkage(D, method)))
            if base is None:
                base = o
            elif o != base:
                return False
    return True


def corr_of(S):
    d = np.sqrt(np.diag(S))
    return S / d[:, None] / d[None]


def pair_corr(R):
    """Correlation of each pair over the periods both have."""
    V = R.to_numpy(float)
    n = V.shape[1]
    C = np.eye(n)
    for i in range(n):
        for j in range(i):
            k = ~np.isnan(V[:, i]) & ~np.isnan(V[:, j])
            a, b = V[k, i] - V[k, i].mean(), V[k, j] - V[k, j].mean()
            C[i, j] = C[j, i] = a @ b / np.sqrt(a @ a) / np.sqrt(b @ b)
    return C


def draw(rng, lo=2, hi=14, tk=None):
    n = gen.size(rng, lo, hi, 0.1)
    tk = tk or gen.tickers(rng, n, str(rng.choice(["random", "alpha", "int", "lookalike"])))[0]
    T = int(rng.choice([15, 30, 60, 200]))
    R, kind = gen.returns_panel(rng, n, T, tk)
    if rng.random() < 0.3:  # clustered
        g = rng.integers(0, 3, n)
        f = rng.normal(0, 0.01, (T, 3))
        R = R + f[:, g]
    if rng.random() < 0.25:  # other units: intraday returns, percentages
        R = R * 10.0 ** rng.uniform(-4, 2)
    return n, tk, R


def run_case(ctx):
    from pypfopt import HRPOpt

    rng = ctx.rng
    if ctx.kind == "misuse":
        return misuse(ctx)
    n, tk, R = draw(rng)
    m = "single" if rng.random() < 0.4 else str(rng.choice(METHODS))
    kw = {} if m == "single" and rng.random() < 0.5 else dict(linkage_method=m)
    scale = float(rng.choice([1.0, 252.0]))
    gaps = ctx.kind == "returns" and len(R) >= 30 and rng.random() < 0.2
    if gaps:
        H = rng.random(R.shape) < rng.uniform(0.01, 0.12)
        if rng.random() < 0.5:  # an asset listed later
            H[:int(rng.integers(1, len(R) // 2)), int(rng.integers(n))] = True
        R = R.mask(H)
    Sr = ref.pair_cov(R)
    if ctx.kind in ("cov", "both"):
        if ctx.kind == "cov" and rng.random() < 0.6:
            S, ck = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "block", "near", "diag"])))
            if ck == "diag":
                raise Skip("all distances tie")
            if rng.random() < 0.3:
                S = S * 10.0 ** rng.uniform(-8, 6)
        else:
            S = Sr * scale
    else:
        S = Sr
    C = corr_of(S)
    if gaps:
        C = pair_corr(R)
        if np.linalg.eigvalsh(S)[0] < 1e-9 * np.trace(S):
            raise Skip("pairwise covariance is not positive")
        ctx.count("gaps")
    # the covariance route rounds correlations: both roundings must give the same tree
    ok = n == 2 or (stable(C, m) and stable(np.round(C, 6), m))
    if not ok:
        raise Skip("cluster tree decided by rounding")
    want, link, d = ref.hrp(S, C, tk, m)
    ctx.note(n=n, method=m, scale=scale)

    def other(o):
        """The same object asked again with another linkage method, and back."""
        nonlocal want, m
        if rng.random() > 0.25:
            return
        m2, m0, w0 = str(rng.choice(METHODS)), m, want
        if not (n == 2 or (stable(C, m2) and stable(np.round(C, 6), m2))):
            return
        want, m = ref.hrp(S, C, tk, m2)[0], m2
        judge(o, o.optimize(linkage_method=m2), "hrp-other-linkage")
        want, m = w0, m0
        if rng.random() < 0.5:
            judge(o, o.optimize(linkage_method=m), "hrp-repeat")

    def judge(o, r, key="hrp-weights"):
        ctx.check(set(r) == set(tk) and len(r) == n, "hrp-labels", "labels %r" % (list(r)[:6],))
        v = np.array([r[t] for t in tk], float)
        ctx.check(np.all(v > 0), "hrp-positive", v)
        ctx.check(abs(v.sum() - 1) < 1e-9, "hrp-budget", v.sum())
        ctx.close(v, [want[t] for t in tk], key, rtol=1e-6, atol=1e-10, cov=S if n <= 6 else None, method=m)
        ctx.close(np.asarray(o.weights, float), [r[t] for t in o.tickers], "hrp-stored", rtol=0, atol=0)
        ctx.event("weights", got=r)

    if ctx.kind in ("returns", "order"):
        o = HRPOpt(R) if rng.random() < 0.6 else HRPOpt(returns=R, cov_matrix=R.cov() if rng.random() < 0.3 else None)
        judge(o, o.optimize(**kw))
        if rng.random() < 0.3:
            judge(o, o.optimize(**kw), "hrp-repeat")
        other(o)
        if ctx.kind == "order":
            p = [int(i) for i in rng.permutation(n)]
            R2 = R.iloc[:, p]
            C2 = C[np.ix_(p, p)]
            if stable(C2, m):
                o2 = HRPOpt(R2)
                r2 = o2.optimize(**kw)
                judge_perm(ctx, want, ref.hrp(S[np.ix_(p, p)], C2, list(R2.columns), m)[0], r2, n, m)
    elif ctx.kind == "cov":
        o = HRPOpt(cov_matrix=pd.DataFrame(S, tk, tk))
        judge(o, o.optimize(**kw))
        other(o)
    else:
        o1 = HRPOpt(R)
        r1 = o1.optimize(**kw)
        judge(o1, r1)
        o2 = HRPOpt(cov_matrix=R.cov() * scale)
        r2 = o2.optimize(**kw)
        judge(o2, r2)
        ctx.close([r1[t] for t in tk], [r2[t] for t in tk], "hrp-same-data", rtol=1e-6, atol=1e-10)
    ctx.sig(ctx.kind, n, m, len(R))


def judge_perm(ctx, want, want2, r2, n, m):
    a = np.array([r2[t] for t in want])
    ctx.close(a, [want2[t] for t in want], "hrp-weights", rtol=1e-6, atol=1e-10, method=m)
    # which side of a merge comes first may depend on the order; with two assets nothing can
    if n == 2:
        ctx.close(a, list(want.values()), "hrp-relabel", rtol=1e-8)
    else:
        ctx.check(abs(a.sum() - 1) < 1e-9, "hrp-relabel")


def misuse(ctx):
    from pypfopt import HRPOpt

    rng = ctx.rng
    n, tk, R = draw(rng)
    o = HRPOpt(R)
    r, err = attempt(lambda: o.optimize(linkage_method="nonsense"))
    ctx.check(err is not None, "hrp-unknown-linkage")
    ctx.check(o.weights is None, "hrp-no-weights")
    r, err = attempt(lambda: HRPOpt())
    ctx.check(err is not None, "hrp-no-data")
    try:
        HRPOpt(R.to_numpy())
        ctx.check(False, "hrp-array-refused")
    except TypeError:
        ctx.check(True, "hrp-array-refused")
    ctx.sig("misuse", n)
