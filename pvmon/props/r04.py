"""R04 Covariance <-> correlation."""

from .panels import *
from pypfopt import risk_models  # noqa: E402

BUDGET = {"quick": {"round": 13680, "back": 9120, "estimated": 4560},
          "thorough": {"round": 273600, "back": 182400, "estimated": 91200}}
RULE = ("Each case draws a covariance (any scale) or correlation matrix with positive variances as frame or array, converts it both ways and "
        "compares with element-by-element ratios.")
MIN = {"chk:corr": 150, "chk:cov-back": 150, "chk:corr-back": 100}
ASSUMES = ["positive variances"]


def run_case(ctx):
    rng = ctx.rng
    n = gen.size(rng, 1, 15)
    psd = True
    if ctx.kind == "estimated":
        d = Data(rng, missing="none", form="prices")
        S = np.asarray(quiet(lambda: risk_models.sample_cov(d.P)))
        tk = d.tk
        n = d.n
        A = pd.DataFrame(S, tk, tk)
    else:
        S, _ = gen.covariance(rng, n)
        S = S * 10.0 ** rng.uniform(-6, 4)
        if n > 1 and rng.random() < 0.25:
            # pairwise estimates need not be positive semidefinite: the conversion is still lossless
            i, j = rng.permutation(n)[:2]
            S[i, j] = S[j, i] = float(rng.choice([-1, 1])) * rng.uniform(1.02, 1.8) * np.sqrt(S[i, i] * S[j, j])
            psd = False
        tk, _ = gen.tickers(rng, n)
        frame = rng.random() < 0.75
        A = pd.DataFrame(S, tk, tk) if frame else np.array(S)
        tk = tk if frame else list(range(n))
    sd = np.sqrt(np.diag(S))
    if (sd <= 0).any():
        raise Skip("zero variance")
    if ctx.kind == "back":
        C0 = S / np.outer(sd, sd)
        np.fill_diagonal(C0, 1)
        A = pd.DataFrame(C0, A.index, A.columns) if isinstance(A, pd.DataFrame) else C0
        sdv = [sd, list(sd), pd.Series(sd), pd.Series(sd, index=tk)][int(rng.integers(4))]
        V = quiet(lambda: risk_models.corr_to_cov(A, sdv))
        ctx.check(isinstance(V, pd.DataFrame) and list(V.columns) == tk and list(V.index) == tk, "cov-labels")
        W = np.empty((n, n))
        for i in range(n):
            for j in range(n):
                W[i, j] = C0[i, j] * sd[i] * sd[j]
        ctx.close(V, W, "cov-back", rtol=1e-10, atol=0)
        C = quiet(lambda: risk_models.cov_to_corr(V))
        ctx.close(C, C0, "corr-back", rtol=1e-9, atol=1e-12)
        ctx.sig("back", n, psd, type(A).__name__, type(sdv).__name__)
        return
    C = quiet(lambda: risk_models.cov_to_corr(A))
    ctx.check(isinstance(C, pd.DataFrame) and list(C.columns) == tk and list(C.index) == tk, "corr-labels", "%r" % (list(C.columns)[:5],))
    V = np.asarray(C, float)
    W = np.empty((n, n))
    for i in range(n):
        for j in range(n):
            W[i, j] = S[i, j] / (sd[i] * sd[j])
    ctx.close(V, W, "corr", rtol=1e-9, atol=1e-12)
    ctx.close(np.diag(V), np.ones(n), "unit-diagonal", rtol=0, atol=1e-12)
    if psd:
        ctx.check(np.abs(V).max() <= 1 + 1e-9, "range", np.abs(V).max())
    B = quiet(lambda: risk_models.corr_to_cov(C, sd))
    ctx.close(B, S, "cov-back", rtol=1e-9, atol=1e-13 * np.abs(S).max())
    ctx.check(list(B.columns) == tk, "cov-labels")
    ctx.event("round-trip", n=n)
    ctx.sig(ctx.kind, n, psd, type(A).__name__, str(tk[0])[:3])
