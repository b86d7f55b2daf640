"""R03 Positive-semidefinite repair."""

from .panels import *
from pypfopt import risk_models  # noqa: E402

BUDGET = {"quick": {"psd": 16000, "indefinite": 32000, "unknown": 2400},
          "thorough": {"psd": 320000, "indefinite": 640000, "unknown": 48000}}
RULE = ("Each case draws a symmetric matrix (definite, singular, indefinite with one or many negative eigenvalues, tiny or large scale, "
        "repeated eigenvalues, 1x1) as frame or array, repairs it, and compares with the eigenvalue-based definition and optimality.")
MIN = {"chk:unchanged": 100, "chk:nearest": 150, "chk:diag": 100, "chk:repaired-psd": 300}
ASSUMES = ["matrix scale of at least 1e-11"]


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def dress(rng, S):
    n = len(S)
    if rng.random() < 0.7:
        tk, _ = gen.tickers(rng, n)
        return pd.DataFrame(S, tk, tk), tk
    return np.array(S), None


def k_psd(ctx, rng):
    n = gen.size(rng, 1, 12)
    S, ck = gen.covariance(rng, n)
    S = S * 10.0 ** rng.uniform(-5, 3)
    A, tk = dress(rng, S)
    m = [None, "spectral", "diag"][int(rng.integers(3))]
    r = quiet(lambda: risk_models.fix_nonpositive_semidefinite(A) if m is None else risk_models.fix_nonpositive_semidefinite(A, fix_method=m))
    q = np.linalg.eigvalsh(S)
    ctx.check(type(r) is type(A), "type")
    if tk:
        ctx.check(list(r.index) == tk and list(r.columns) == tk, "labels")
    if q[0] > 1e-10 * q[-1]:
        ctx.check(np.array_equal(np.asarray(r), S), "unchanged", "largest change %.3g" % np.abs(np.asarray(r) - S).max())
    else:
        ctx.close(r, S, "unchanged", rtol=1e-9, atol=1e-9 * q[-1])
    ctx.sig("psd", n, ck, m, bool(tk))


def indefinite(rng, n):
    k = str(rng.choice(["one", "many", "all", "slight", "corr", "corr1", "repeated"]))
    if n == 1:
        return np.array([[-float(rng.uniform(0.1, 2))]]), "1x1"
    Q = np.linalg.qr(rng.normal(0, 1, (n, n)))[0]
    q = rng.uniform(0.1, 2, n)
    if k == "one":
        q[0] = -rng.uniform(0.05, 1)
    elif k == "many":
        q[: max(1, n // 2)] *= -1
    elif k == "all":
        q = -q
    elif k == "slight":
        q[0] = -(10.0 ** -rng.uniform(2, 5))
    elif k == "repeated":
        q = np.where(np.arange(n) < max(1, n // 2), 1.0, -0.5)
    elif k in ("corr", "corr1"):
        C = rng.uniform(-1, 1, (n, n))
        C = (C + C.T) / 2
        np.fill_diagonal(C, 1)
        d = rng.uniform(0.1, 0.5, n) if k == "corr" else np.ones(n)  # corr1: a correlation matrix itself
        S = C * np.outer(d, d)
        if np.linalg.eigvalsh(S)[0] < -1e-6:
            return S, k
        q[0] = -0.3
    S = (Q * q) @ Q.T
    return (S + S.T) / 2, k


def k_indefinite(ctx, rng):
    n = gen.size(rng, 1, 10)
    S, k = indefinite(rng, n)
    sc = float(10.0 ** (rng.uniform(-11, -4) if rng.random() < 0.35 else rng.uniform(-4, 3)))
    if k == "corr1" and rng.random() < 0.8:
        sc = 1.0
    if k in ("slight", "corr", "corr1"):
        sc = max(sc, 1e-8)  # negative parts stay well above the absolute rounding allowance of 1e-16
    S = S * sc
    A, tk = dress(rng, S)
    m = [None, "spectral", "diag"][int(rng.integers(3))]
    r = quiet(lambda: risk_models.fix_nonpositive_semidefinite(A) if m is None else risk_models.fix_nonpositive_semidefinite(A, m))
    ctx.check(type(r) is type(A), "type")
    if tk:
        ctx.check(list(r.index) == tk and list(r.columns) == tk, "labels")
    V = np.asarray(r, float)
    s = float(np.abs(np.linalg.eigvalsh(S)).max())
    ctx.check(np.abs(V - V.T).max() <= 1e-12 * s, "repaired-symmetric")
    ctx.check(np.linalg.eigvalsh((V + V.T) / 2).min() >= -1e-12 * s * n, "repaired-psd", "least eigenvalue %.3g" % np.linalg.eigvalsh(V).min(), kind=k)
    if m == "diag":
        e = V - S
        c = float(e[0, 0])
        lam = -float(np.linalg.eigvalsh(S)[0])
        ctx.close(e, c * np.eye(n), "diag", rtol=1e-9, atol=1e-12 * s)
        ctx.check(lam * (1 - 1e-9) <= c <= 1.2 * lam, "diag-amount", "adds %.6g for a most negative eigenvalue of %.6g" % (c, -lam))
    else:
        ctx.close(V, ref.spectral(S), "nearest", rtol=1e-8, atol=1e-10 * s, kind=k)
        # no other positive-semidefinite matrix is nearer
        d0 = np.linalg.norm(V - S)
        for _ in range(5):
            X = rng.normal(0, 1, (n, n)) * np.sqrt(s)
            W = V + float(rng.uniform(0, 0.3)) * (X @ X.T / n - V)
            ctx.check(np.linalg.norm(W - S) >= d0 - 1e-9 * s, "nearest-witness")
    # repairing again changes nothing
    r2 = quiet(lambda: risk_models.fix_nonpositive_semidefinite(r))
    ctx.close(r2, V, "idempotent", rtol=1e-8, atol=1e-10 * s)
    ctx.event("repair", what=k, method=m)
    ctx.sig("ind", n, k, m, bool(tk), round(np.log10(sc)))


def k_unknown(ctx, rng):
    S, k = indefinite(rng, int(rng.integers(2, 6)))
    try:
        quiet(lambda: risk_models.fix_nonpositive_semidefinite(pd.DataFrame(S), fix_method=str(rng.choice(["none", "Spectral", "higham"]))))
        ctx.check(False, "unknown-method")
    except NotImplementedError:
        ctx.check(True, "unknown-method")
    ctx.sig("unknown", len(S), k)
