"""Independent oracles: textbook formulas and separately posed reference problems.
Nothing here imports pypfopt."""

import itertools

import cvxpy as cp
import numpy as np
import pandas as pd
from scipy.optimize import LinearConstraint, Bounds, linprog, milp

# ---------------------------------------------------------------- bounds


def _scalar(x):
    return x is None or np.isscalar(x)


def parse_bounds(wb, n):
    """What a weight_bounds argument denotes: (lower, upper) float arrays."""
    if isinstance(wb, np.ndarray) and wb.shape == (n, 2) or (
        isinstance(wb, (list, tuple)) and len(wb) == n and not _scalar(wb[0])
        and not (n == 2 and all(isinstance(b, np.ndarray) for b in wb))
    ):
        lb = np.array([-np.inf if b[0] is None or np.isnan(b[0]) else b[0] for b in wb], float)
        ub = np.array([np.inf if b[1] is None or np.isnan(b[1]) else b[1] for b in wb], float)
        return lb, ub
    lo, hi = wb
    if _scalar(lo):
        lb = np.full(n, -1.0 if lo is None else float(lo))
        ub = np.full(n, 1.0 if hi is None else float(hi))
        return lb, ub
    lo, hi = np.array(lo, float), np.array(hi, float)
    return np.where(np.isnan(lo), -1.0, lo), np.where(np.isnan(hi), 1.0, hi)


# ---------------------------------------------------------------- numeric measures


def variance(w, S):
    w = np.asarray(w, float)
    return float(w @ np.asarray(S, float) @ w)


def vol(w, S):
    return float(np.sqrt(max(variance(w, S), 0.0)))


def cvar(w, R, beta):
    """Fractional-tail average of the worst (1-beta) losses."""
    return tail_mean(-np.asarray(R, float) @ np.asarray(w, float), beta)


def tail_mean(losses, beta):
    x = np.sort(np.asarray(losses, float))[::-1]
    m = len(x) * (1 - beta)
    full = int(np.floor(m + 1e-12))
    s = x[:full].sum()
    frac = m - full
    if full < len(x) and frac > 1e-12:
        s += frac * x[full]
    return float(s / m)


def drawdowns(w, R):
    c = np.concatenate([[0.0], np.cumsum(np.asarray(R, float) @ np.asarray(w, float))])
    return (np.maximum.accumulate(c) - c)[1:]


def cdar(w, R, beta):
    return tail_mean(drawdowns(w, R), beta)


def semidev(w, R, benchmark=0.0, frequency=252):
    r = np.asarray(R, float) @ np.asarray(w, float)
    d = np.minimum(r - benchmark, 0.0)
    return float(np.sqrt(np.mean(d**2) * frequency))


# ---------------------------------------------------------------- reference optimisation

CL = dict(solver="CLARABEL")


class RefFail(Exception):
    pass


def solve(objective, cons, w, tight=True):
    """Minimise; returns (status, w). Independent of pypfopt's problem assembly."""
    from . import hooks

    with hooks.unmonitored():
        p = cp.Problem(cp.Minimize(objective), cons)
        try:
            p.solve(**CL)
        except BaseException as e:
            if type(e).__name__ in ("CaseTimeout", "KeyboardInterrupt"):
                raise
            return "failed", None
    if p.status not in ("optimal",):
        return p.status, None
    return "optimal", np.array(w.value, float)


def psd_root(S):
    S = np.asarray(S, float)
    q, V = np.linalg.eigh((S + S.T) / 2)
    q = np.where(q > 0, q, 0)
    keep = q > 1e-14 * max(q.max(), 1e-300)
    return (V[:, keep] * np.sqrt(q[keep])).T  # L with S = L.T @ L


def base_cons(w, lb, ub, total=1.0, margin=0.0):
    cons = []
    f = np.isfinite(lb)
    if f.any():
        cons.append(w[np.where(f)[0]] >= lb[f] + margin)
    f = np.isfinite(ub)
    if f.any():
        cons.append(w[np.where(f)[0]] <= ub[f] - margin)
    if total is not None:
        cons.append(cp.sum(w) == total)
    return cons


def lp_max(c, lb, ub, total=1.0, A=None, b=None):
    """max c.w over bounds, budget (and A w <= b); returns value or None/inf."""
    n = len(c)
    bounds = [(None if not np.isfinite(l) else l, None if not np.isfinite(u) else u) for l, u in zip(lb, ub)]
    r = linprog(-np.asarray(c, float), A_ub=A, b_ub=b,
                A_eq=None if total is None else np.ones((1, n)), b_eq=None if total is None else [total],
                bounds=bounds, method="highs")
    if r.status == 3:
        return np.inf, None
    if r.status != 0:
        return None, None
    return -r.fun, r.x


# ---------------------------------------------------------------- allocation


def lp_alloc_objective(x, w, p, value):
    x, w, p = (np.asarray(v, float) for v in (x, w, p))
    return float(np.abs(w * value - x * p).sum() + (value - p @ x))


def milp_alloc(w, p, value):
    """Exact optimum of the allocation program by HiGHS MILP (objective, x)."""
    n = len(w)
    w, p = np.asarray(w, float), np.asarray(p, float)
    # variables x (int), u ; min sum(u) - p.x
    c = np.concatenate([-p, np.ones(n)])
    A1 = np.hstack([-np.diag(p), -np.eye(n)])  # w*V - p x <= u
    A2 = np.hstack([np.diag(p), -np.eye(n)])
    A3 = np.concatenate([p, np.zeros(n)])[None]
    cons = [LinearConstraint(A1, -np.inf, -w * value), LinearConstraint(A2, -np.inf, w * value),
            LinearConstraint(A3, -np.inf, value)]
    r = milp(c, constraints=cons, integrality=np.concatenate([np.ones(n), np.zeros(n)]),
             bounds=Bounds(np.zeros(2 * n), np.inf),
             options=dict(time_limit=10, mip_rel_gap=1e-9))
    if r.x is None or r.status != 0:
        return None
    x = np.rint(r.x[:n])
    if p @ x > value * (1 + 1e-12):
        return None
    return lp_alloc_objective(x, w, p, value), x


# ---------------------------------------------------------------- returns and covariances


def simple_returns(P, log=False):
    """Period-on-period changes of a price frame; all-NaN rows dropped."""
    V = P.to_numpy(float)
    R = V[1:] / V[:-1] - 1.0
    if log:
        R = np.log1p(R)
    keep = ~np.isnan(R).all(axis=1)
    return pd.DataFrame(R[keep], index=P.index[1:][keep], columns=P.columns)


def pair_cov(R):
    """Pairwise-complete unbiased covariance."""
    V = R.to_numpy(float) if isinstance(R, pd.DataFrame) else np.asarray(R, float)
    n = V.shape[1]
    S = np.empty((n, n))
    for i in range(n):
        for j in range(n):
            m = ~np.isnan(V[:, i]) & ~np.isnan(V[:, j])
            a, b = V[m, i], V[m, j]
            S[i, j] = ((a - a.mean()) * (b - b.mean())).sum() / (m.sum() - 1) if m.sum() > 1 else np.nan
    return S


def spectral(S):
    """Nearest positive-semidefinite matrix in Frobenius norm."""
    q, V = np.linalg.eigh(S)
    return (V * np.maximum(q, 0)) @ V.T


def ew_mean(x, span):
    """Exponentially weighted mean (adjusted weights), NaNs skipped but time still passing."""
    x = np.asarray(x, float)
    a = 2.0 / (span + 1.0)
    m = ~np.isnan(x)
    last = np.flatnonzero(m)[-1] if m.any() else 0  # only ratios of the weights matter
    w = (1 - a) ** np.maximum(last - np.arange(len(x)), 0.0)
    return float((w[m] * x[m]).sum() / w[m].sum())


# ---------------------------------------------------------------- Black-Litterman


def bl_posterior(S, pi, P, Q, omega, tau):
    """Posterior mean and covariance in the information (precision) form when possible,
    else in gain form with pseudo-inverse."""
    S, pi, P, Q, omega = (np.asarray(x, float) for x in (S, pi, P, Q, omega))
    pi, Q = pi.reshape(-1), Q.reshape(-1)
    tS = tau * S
    A = P @ tS @ P.T + omega
    K = tS @ P.T @ np.linalg.pinv(A, rcond=1e-13)
    mean = pi + K @ (Q - P @ pi)
    M = tS - K @ P @ tS
    return mean, S + M


# ---------------------------------------------------------------- HRP


def hrp(cov, corr, tickers, method):
    """Published recursion, written recursively; returns dict label->weight, or None if
    the clustering has ties (the order is then not determined)."""
    import scipy.cluster.hierarchy as sch

    C = np.asarray(corr, float)
    n = len(tickers)
    D = np.sqrt(np.clip((1 - C) / 2, 0, 1))
    iu = np.triu_indices(n, 1)
    d = D[iu]
    link = sch.linkage(d, method)
    order = sch.leaves_list(link)
    S = np.asarray(cov, float)
    w = np.ones(n)

    def ivp_var(idx):
        sub = S[np.ix_(idx, idx)]
        iv = 1 / np.diag(sub)
        iv = iv / iv.sum()
        return float(iv @ sub @ iv)

    def rec(idx):
        if len(idx) < 2:
            return
        h = len(idx) // 2
        a, b = idx[:h], idx[h:]
        va, vb = ivp_var(a), ivp_var(b)
        w[a] *= vb / (va + vb)
        w[b] *= va / (va + vb)
        rec(a)
        rec(b)

    rec(list(order))
    return dict(zip(tickers, w)), link, d


# ---------------------------------------------------------------- shrinkage (element by element, from the papers)


def shrink_constant_variance(X):
    """Ledoit-Wolf (2004) toward mu*I: (intensity, sample/T, target)."""
    T, n = X.shape
    Y = X - X.mean(0)
    S = Y.T @ Y / T
    m = np.trace(S) / n
    d2 = ((S - m * np.eye(n)) ** 2).sum() / n
    b2 = sum(((np.outer(y, y) - S) ** 2).sum() / n for y in Y) / T**2
    b2 = min(b2, d2)
    return (0.0 if b2 == 0 or d2 == 0 else b2 / d2), S, m * np.eye(n)


def shrink_single_factor(X):
    """Ledoit-Wolf (2003) toward Sharpe's one-factor matrix."""
    T, n = X.shape
    Y = X - X.mean(0)
    y0 = Y.mean(1)
    S = Y.T @ Y / T
    s0 = Y.T @ y0 / T
    s00 = y0 @ y0 / T
    F = np.outer(s0, s0) / s00
    F[np.diag_indices(n)] = np.diag(S)
    pi = rho = 0.0
    for i in range(n):
        for j in range(n):
            z = Y[:, i] * Y[:, j]
            p = ((z - S[i, j]) ** 2).mean()
            pi += p
            if i == j:
                rho += p
            else:
                r = (s0[j] * s00 * Y[:, i] + s0[i] * s00 * Y[:, j] - s0[i] * s0[j] * y0) / s00**2 * y0 * z - F[i, j] * S[i, j]
                rho += r.mean()
    g = ((F - S) ** 2).sum()
    return (None if g < 1e-18 * (S**2).sum() else min(1.0, max(0.0, (pi - rho) / g / T))), S, F


def shrink_constant_correlation(X, S=None):
    """Ledoit-Wolf (2004, 'Honey') toward constant correlation; S is the unbiased sample covariance."""
    T, n = X.shape
    Y = X - X.mean(0)
    S = Y.T @ Y / (T - 1) if S is None else S
    sd = np.sqrt(np.diag(S))
    C = S / np.outer(sd, sd)
    rbar = C[np.triu_indices(n, 1)].mean()
    F = rbar * np.outer(sd, sd)
    F[np.diag_indices(n)] = np.diag(S)
    pi = rho = 0.0
    for i in range(n):
        ci = Y[:, i] ** 2 - S[i, i]
        for j in range(n):
            z = Y[:, i] * Y[:, j] - S[i, j]
            p = (z**2).mean()
            pi += p
            if i == j:
                rho += p
            else:
                cj = Y[:, j] ** 2 - S[j, j]
                rho += rbar / 2 * (sd[j] / sd[i] * (ci * z).mean() + sd[i] / sd[j] * (cj * z).mean())
    g = ((F - S) ** 2).sum()
    return (None if g < 1e-18 * (S**2).sum() else min(1.0, max(0.0, (pi - rho) / g / T))), S, F


def shrink_oas(X):
    """Oracle approximating shrinkage (Chen et al. 2010, as implemented in scikit-learn)."""
    T, n = X.shape
    Y = X - X.mean(0)
    S = Y.T @ Y / T
    m = np.trace(S) / n
    a = (S**2).sum() / n**2
    den = (T + 1) * (a - m**2 / n)
    return (1.0 if den <= 0 else min(1.0, (a + m**2) / den)), S, m * np.eye(n)
