"""Workload generators: asset universes, data panels, bound notations, constraints, objectives.

A generated constraint carries two independent descriptions: the callable a client would
write (in one of many syntactic forms) and the canonical mathematical form used by the
oracles.  Feasibility is by construction: everything is built around an anchor portfolio."""

import string
import warnings

import cvxpy as cp
import numpy as np
import pandas as pd
from scipy import sparse

from . import ref

# ------------------------------------------------------------------ labels


def tickers(rng, n, kind=None):
    kind = kind or rng.choice(["random", "alpha", "int", "lookalike", "mixed"], p=[0.45, 0.2, 0.15, 0.1, 0.1])
    if kind == "alpha":
        return ["A%02d" % i for i in range(n)], kind
    if kind == "int":
        return [int(x) for x in rng.permutation(n * 3)[:n]], kind
    if kind == "lookalike":
        base = ["a", "A", "a ", " a", "aa", "AA", "1", "01", "1.0", "a.b", "a-b", "None", "nan", "0", "weight", "b", "B",
                "cash", "true", "-1", "x" * 30, "A_", "a,b", "ü"]
        out = [str(x) for x in rng.permutation(base)[:n]]
        out += ["Z%d" % i for i in range(n - len(out))]
        return out, kind
    if kind == "mixed":
        return [("T%d" % i if rng.random() < 0.5 else int(1000 + i)) for i in rng.permutation(n)], kind
    out = set()
    while len(out) < n:
        out.add("".join(rng.choice(list(string.ascii_uppercase), int(rng.integers(1, 6)))))
    out = [str(x) for x in rng.permutation(sorted(out))]
    return out, "random"


def size(rng, lo=2, hi=12, big=0.08):
    u = rng.random()
    if u < 0.1 * big:  # a universe of realistic size
        return int(rng.integers(2 * hi, max(2 * hi, 40) + 1))
    if u < big:
        return int(rng.integers(hi, 2 * hi + 1))
    return int(rng.integers(lo, hi + 1))


# ------------------------------------------------------------------ covariance matrices


def covariance(rng, n, kind=None, scale=None):
    """Symmetric PSD matrix with asset volatilities around 10-60% a year."""
    kind = kind or str(rng.choice(["factor", "wishart", "diag", "block", "near", "equicorr", "deficient"],
                                  p=[0.35, 0.25, 0.1, 0.1, 0.08, 0.07, 0.05]))
    if n == 1:
        kind = "diag"
    sd = rng.uniform(0.08, 0.6, n)
    if kind == "factor":
        k = int(rng.integers(1, max(2, min(n, 4)) + 1))
        B = rng.normal(0, 1, (n, k))
        C = B @ B.T + np.diag(rng.uniform(0.2, 1.5, n))
    elif kind == "wishart":
        X = rng.normal(0, 1, (n, n + int(rng.integers(2, 20))))
        C = X @ X.T
    elif kind == "diag":
        C = np.eye(n)
    elif kind == "block":
        g = rng.integers(0, max(1, n // 3) + 1, n)
        C = np.where(g[:, None] == g[None], rng.uniform(0.3, 0.9), 0.05) * 1.0
        np.fill_diagonal(C, 1.0)
        q, V = np.linalg.eigh(C)
        C = (V * np.maximum(q, 0.02)) @ V.T
    elif kind == "near":
        B = rng.normal(0, 1, (n, max(1, n // 2)))
        C = B @ B.T + 1e-5 * np.eye(n)
    elif kind == "equicorr":
        r = rng.uniform(0, 0.95)
        C = np.full((n, n), r) + (1 - r) * np.eye(n)
    else:  # deficient
        B = rng.normal(0, 1, (n, max(1, n - 1 - int(rng.integers(0, max(1, n // 3))))))
        C = B @ B.T
    d = np.sqrt(np.diag(C))
    d = np.where(d > 0, d, 1)
    C = C / d[:, None] / d[None]
    S = C * sd[:, None] * sd[None]
    S = (S + S.T) / 2
    if scale:
        S = S * scale
    return S, kind


def means(rng, n, kind=None):
    kind = kind or str(rng.choice(["normal", "wide", "negative", "close"], p=[0.6, 0.2, 0.1, 0.1]))
    if kind == "wide":
        m = rng.uniform(-0.5, 1.0, n)
    elif kind == "negative":
        m = rng.uniform(-0.4, -0.01, n)
        m[rng.integers(n)] = rng.uniform(0.01, 0.2)
    elif kind == "close":
        m = 0.1 + rng.normal(0, 0.01, n)
    else:
        m = rng.normal(0.1, 0.15, n)
    return m, kind


def as_mu(rng, mu, tk, form=None):
    form = form or str(rng.choice(["series", "array", "list", "column"], p=[0.6, 0.2, 0.1, 0.1]))
    if form == "series":
        return pd.Series(mu, index=tk), form
    if form == "array":
        return np.array(mu), form
    if form == "column":
        return np.array(mu).reshape(-1, 1), form
    return [float(x) for x in mu], form


def as_cov(rng, S, tk, form=None):
    form = form or str(rng.choice(["frame", "array"], p=[0.75, 0.25]))
    return (pd.DataFrame(S, index=tk, columns=tk), form) if form == "frame" else (np.array(S), form)


# ------------------------------------------------------------------ panels


def returns_panel(rng, n, T=None, tk=None, kind=None, freq=252, order="C"):
    T = T or int(rng.choice([25, 40, 60, 120, 250]))
    kind = kind or str(rng.choice(["normal", "heavy", "skew", "crash"], p=[0.5, 0.2, 0.2, 0.1]))
    sd = rng.uniform(0.08, 0.5, n) / np.sqrt(252)
    f = rng.normal(0, 1, (T, 1))
    e = rng.normal(0, 1, (T, n))
    if kind == "heavy":
        e = rng.standard_t(3, (T, n)) / np.sqrt(3)
    elif kind == "skew":
        e = 1 - rng.exponential(1, (T, n))
    beta = rng.uniform(0, 1.2, n)
    X = (beta * f + e) / np.sqrt(1 + beta**2) * sd
    if kind == "crash":
        t = int(rng.integers(T))
        X[t] -= rng.uniform(0.02, 0.15)
    X += rng.normal(0.0004, 0.0006, n)
    X = np.maximum(X, -0.6)
    tk = tk if tk is not None else tickers(rng, n)[0]
    idx = pd.bdate_range("2015-01-02", periods=T)
    return pd.DataFrame(X, index=idx, columns=tk), kind


def price_panel(rng, n, T=None, tk=None, kind=None, missing=None):
    """Prices; missing: None, 'late' (late listings), 'early' (delisted), 'gaps', 'rows'."""
    R, k = returns_panel(rng, n, T, tk, kind)
    P0 = np.exp(rng.normal(3.5, 1.2, n))
    V = P0 * np.cumprod(1 + R.to_numpy(), axis=0)
    P = pd.DataFrame(V, index=R.index, columns=R.columns)
    T = len(P)
    if missing == "late":
        for j in range(1, n):
            if rng.random() < 0.5:
                P.iloc[: int(rng.integers(1, T // 2)), j] = np.nan
    elif missing == "early":
        for j in range(1, n):
            if rng.random() < 0.5:
                P.iloc[-int(rng.integers(1, T // 2)):, j] = np.nan
    elif missing == "gaps":
        m = rng.random((T, n)) < 0.05
        m[0] = False
        P = P.mask(m)
    elif missing == "rows":
        for t in rng.choice(np.arange(2, T - 1), 2, replace=False):
            P.iloc[t] = np.nan
    return P, k


# ------------------------------------------------------------------ anchors and bounds


def anchor(rng, n, total=1.0, shorts=False):
    """A portfolio with the wanted budget."""
    if total == 0:
        w = rng.normal(0, 0.3, n)
        w -= w.mean()
        if n == 1:
            w[:] = 0
        return w
    if shorts and n > 1:
        w = rng.normal(1.0 / n, 0.25, n)
        w += (1 - w.sum()) / n
        return w
    w = rng.dirichlet(np.full(n, float(rng.choice([0.8, 2, 8]))))
    w = 0.9 * w + 0.1 / n
    return w / w.sum()


def bounds(rng, n, total=1.0, kind=None, shorts=None):
    """(weight_bounds argument, lb, ub, anchor, kind): anchor strictly within limits
    (or on the edge when n makes that impossible)."""
    kinds = ["default", "ls", "pair_narrow", "pair_wide", "pair_none", "list", "list_none", "arrays", "nd", "arrays_list", "pair_lev"]
    if kind is None:
        kind = str(rng.choice(kinds, p=[0.18, 0.12, 0.1, 0.08, 0.06, 0.14, 0.06, 0.1, 0.06, 0.04, 0.06]))
    if n == 1 and total == 1.0:
        kind = str(rng.choice(["default", "pair_wide", "ls"]))
        a = np.ones(1)
        return {"default": (0, 1), "pair_wide": (-1, 2), "ls": (-1, 1)}[kind], *{
            "default": (np.zeros(1), np.ones(1)), "pair_wide": (-np.ones(1), 2 * np.ones(1)),
            "ls": (-np.ones(1), np.ones(1))}[kind], a, kind
    if shorts is None:
        shorts = rng.random() < 0.4
    if total == 0 and kind == "default":
        kind = "ls"
    if kind == "default":
        a = anchor(rng, n, total, False)
        return (0, 1), np.zeros(n), np.ones(n), a, kind
    if kind == "ls":
        a = anchor(rng, n, total, True)
        a = a / max(1.0, np.abs(a).max() / 0.9) if total == 0 else a
        if total == 1 and np.abs(a).max() > 0.95:
            a = anchor(rng, n, total, False)
        return (-1, 1), -np.ones(n), np.ones(n), a, kind
    if kind == "pair_lev":  # leverage: more than the whole capital may go into one asset
        a = anchor(rng, n, total, True)
        lo = float(np.round(min(-rng.uniform(0.2, 2), a.min() - 0.05), 2))
        hi = float(np.round(max(rng.uniform(1, 3), a.max() + 0.05), 2))
        return ((lo, hi) if rng.random() < 0.7 else [lo, hi]), np.full(n, lo), np.full(n, hi), a, kind
    a = anchor(rng, n, total, shorts or total == 0)
    if kind in ("pair_narrow", "pair_wide"):
        m = 0.05 if kind == "pair_narrow" else 0.5
        lo = float(np.round(a.min() - rng.uniform(0.01, m), 3))
        hi = float(np.round(a.max() + rng.uniform(0.01, m), 3))
        if not shorts and total == 1:
            lo = float(rng.choice([0.0, max(0.0, np.floor(a.min() * 500) / 1000)]))
        if total == 0:
            lo = min(lo, -0.01)
        arg = (lo, hi) if rng.random() < 0.7 else [lo, hi]
        return arg, np.full(n, lo), np.full(n, hi), a, kind
    if kind == "pair_none":
        if np.abs(a).max() > 0.95:
            a = anchor(rng, n, total, False) if total else a / (np.abs(a).max() * 1.2)
        hi = float(np.round(a.max() + 0.1, 3))
        lo = float(np.round(a.min() - 0.1, 3))
        arg, lb, ub = [((None, hi), -1.0, hi), ((lo, None), lo, 1.0), ((None, None), -1.0, 1.0)][int(rng.integers(3))]
        if total == 0 and lb >= 0:
            arg, lb, ub = (None, None), -1.0, 1.0
        return arg, np.full(n, lb), np.full(n, ub), a, kind
    lb = np.round(a - rng.uniform(0.02, 0.4, n), 3)
    ub = np.round(a + rng.uniform(0.02, 0.4, n), 3)
    if not shorts and total == 1:
        lb = np.where(rng.random(n) < 0.6, 0.0, np.maximum(0.0, np.floor(a * 500) / 1000))
    if kind == "list":
        arg = [(float(l), float(u)) for l, u in zip(lb, ub)]
        if rng.random() < 0.3:
            arg = tuple(arg)
        elif rng.random() < 0.3:
            arg = [list(x) for x in arg]
    elif kind == "list_none":
        # keep one side limited for every asset pair so that problems stay bounded
        arg = []
        for i in range(n):
            l, u = float(lb[i]), float(ub[i])
            if rng.random() < 0.3:
                u = None
            arg.append((l, u))
        ub = np.array([np.inf if u is None else u for _, u in arg])
    elif kind == "nd":
        arg = np.column_stack([lb, ub])
    elif kind == "arrays_list":
        arg = [np.array(lb), np.array(ub)]
    else:
        arg = (np.array(lb), np.array(ub))
    return arg, lb, ub, a, kind


# ------------------------------------------------------------------ constraints


class Con:
    """written: callable(w)->cvxpy constraint as a client writes it; canon: callable(w)->list of
    cvxpy constraints for the reference; viol: numeric violation of a portfolio."""

    def __init__(self, written, canon, viol, form):
        self.written, self.canon, self.viol, self.form = written, canon, viol, form


def _aff(A, b, eq, written, form):
    A = np.atleast_2d(np.asarray(A, float))
    b = np.atleast_1d(np.asarray(b, float))
    canon = (lambda w: [A @ w == b]) if eq else (lambda w: [A @ w <= b])
    viol = (lambda w: float(np.max(np.abs(A @ w - b)))) if eq else (lambda w: float(np.max(A @ w - b)))
    return Con(written, canon, viol, form)


CON_FORMS = ["single_le", "single_ge", "const_left", "single_eq", "pair_diff", "var_both", "dot_le", "dot_ge_rev",
             "sum_idx", "vec_le", "vec_ge", "mat_le", "mat_eq", "scaled", "zero_rhs", "neg_form", "slice"]
CON_CONVEX = ["l2_ball", "l1", "abs", "max", "quad", "sum_sq_left"]


def constraint(rng, a, S, lb, ub, form=None, convex=True, slack=None):
    """One constraint satisfied by anchor a (strictly for inequalities)."""
    n = len(a)
    form = form or str(rng.choice(CON_FORMS + (CON_CONVEX if convex else [])))
    s = float(rng.choice([0.005, 0.02, 0.05, 0.15])) if slack is None else slack
    i, j = (int(x) for x in (rng.permutation(n)[:2] if n > 1 else [0, 0]))
    if form in ("pair_diff", "var_both") and n < 2:
        form = "single_le"
    ei = np.eye(n)[i]
    ej = np.eye(n)[j]
    if form == "single_le":
        c = float(a[i] + s)
        return _aff(ei, c, False, lambda w: w[i] <= c, form)
    if form == "single_ge":
        c = float(a[i] - s)
        return _aff(-ei, -c, False, lambda w: w[i] >= c, form)
    if form == "const_left":
        if rng.random() < 0.5:
            c = float(a[i] - s)
            return _aff(-ei, -c, False, lambda w: c <= w[i], form)
        c = float(a[i] + s)
        return _aff(ei, c, False, lambda w: c >= w[i], form)
    if form == "single_eq":
        c = float(a[i])
        if rng.random() < 0.3:
            return _aff(ei, c, True, lambda w: c == w[i], form)
        if rng.random() < 0.5:
            return _aff(ei, c, True, lambda w: w[i] - c == 0, form)
        return _aff(ei, c, True, lambda w: w[i] == c, form)
    if form == "pair_diff":
        c = float(a[i] - a[j] + s)
        return _aff(ei - ej, c, False, lambda w: w[i] - w[j] <= c, form)
    if form == "var_both":
        c = float(a[i] - a[j] + s)
        if rng.random() < 0.4:
            c0 = float(a[i] - a[j])
            return _aff(ei - ej, c0, True, lambda w: w[i] == w[j] + c0, form + "_eq")
        if rng.random() < 0.5:
            return _aff(ei - ej, c, False, lambda w: w[i] <= w[j] + c, form)
        return _aff(ei - ej, c, False, lambda w: w[j] + c >= w[i], form)
    if form in ("dot_le", "dot_ge_rev", "scaled", "zero_rhs", "neg_form"):
        v = np.round(rng.normal(0, 1, n), 3)
        c = float(v @ a + s)
        if form == "dot_le":
            return _aff(v, c, False, (lambda w: v @ w <= c) if rng.random() < 0.5 else (lambda w: w @ v <= c), form)
        if form == "dot_ge_rev":
            return _aff(v, c, False, lambda w: c >= v @ w, form)
        if form == "scaled":
            k = float(rng.uniform(0.5, 3))
            return _aff(v, c, False, lambda w: k * (v @ w) + 0.25 <= k * c + 0.25, form)
        if form == "zero_rhs":
            return _aff(v, c, False, (lambda w: v @ w - c <= 0) if rng.random() < 0.5 else (lambda w: 0 <= c - v @ w), form)
        return _aff(v, c, False, lambda w: -(v @ w) >= -c, form)
    if form == "sum_idx":
        k = int(rng.integers(1, n + 1))
        idx = [int(x) for x in sorted(rng.permutation(n)[:k])]
        v = np.zeros(n)
        v[idx] = 1
        if k == n:
            return _aff(v, float(a.sum()) + s, False, lambda w: cp.sum(w[idx]) <= float(a.sum()) + s, form)
        if rng.random() < 0.5:
            c = float(v @ a + s)
            return _aff(v, c, False, lambda w: cp.sum(w[idx]) <= c, form)
        c = float(v @ a - s)
        return _aff(-v, -c, False, lambda w: cp.sum(w[idx]) >= c, form)
    if form == "vec_le":
        c = a + s * rng.uniform(0.5, 2, n)
        return _aff(np.eye(n), c, False, lambda w: w <= c, form)
    if form == "vec_ge":
        c = a - s * rng.uniform(0.5, 2, n)
        return _aff(-np.eye(n), -c, False, lambda w: w >= c, form)
    if form == "slice":
        if n < 2:
            c = float(a[0] + s)
            return _aff(np.eye(n), c, False, lambda w: w[0:1] <= c, form)
        m = int(rng.integers(1, n))
        if rng.random() < 0.5:
            c = float(a[m:].max() + s)
            return _aff(np.eye(n)[m:], np.full(n - m, c), False, lambda w: w[m:] <= c, form)
        c = float(a[:m].min() - s)
        return _aff(-np.eye(n)[:m], np.full(m, -c), False, lambda w: w[:m] >= c, form)
    if form == "mat_le":
        A = np.round(rng.normal(0, 1, (int(rng.integers(2, 4)), n)), 3)
        c = A @ a + s * rng.uniform(0.5, 2, len(A))
        if rng.random() < 0.3:
            B = sparse.csr_matrix(A) if rng.random() < 0.5 else sparse.coo_matrix(A)
            return _aff(A, c, False, lambda w: B @ w <= c, form + "_sparse")
        if rng.random() < 0.5:
            return _aff(A, c, False, lambda w: A @ w <= c, form)
        return _aff(A, c, False, lambda w: A @ w - c <= 0, form)
    if form == "mat_eq":
        if n < 4:
            v = np.round(rng.normal(0, 1, n), 3)
            c = float(v @ a)
            return _aff(v, c, True, lambda w: v @ w == c, "dot_eq")
        A = np.round(rng.normal(0, 1, (2, n)), 3)
        c = A @ a
        if rng.random() < 0.3:
            B = sparse.csr_matrix(A)
            return _aff(A, c, True, lambda w: B @ w == c, form + "_sparse")
        return _aff(A, c, True, lambda w: A @ w == c, form)
    if form == "l2_ball":
        c = np.round(a + rng.normal(0, 0.1, n), 3)
        r = float(np.linalg.norm(a - c) + s)
        f = lambda w: [cp.norm(w - c, 2) <= r]
        return Con((lambda w: cp.norm(w - c, 2) <= r) if rng.random() < 0.5 else (lambda w: r >= cp.norm(w - c)), f,
                   lambda w: float(np.linalg.norm(w - c) - r), form)
    if form == "l1":
        r = float(np.abs(a).sum() + s)
        return Con(lambda w: cp.norm(w, 1) <= r, lambda w: [cp.norm1(w) <= r], lambda w: float(np.abs(w).sum() - r), form)
    if form == "abs":
        c = np.abs(a) + s
        return Con(lambda w: cp.abs(w) <= c, lambda w: [w <= c, -w <= c], lambda w: float((np.abs(w) - c).max()), form)
    if form == "max":
        c = float(a.max() + s)
        return Con(lambda w: cp.max(w) <= c, lambda w: [w <= c], lambda w: float(w.max() - c), form)
    if form == "quad":
        c = float(np.sqrt(a @ S @ a) * (1 + s) + 1e-3)
        L = ref.psd_root(S)
        return Con(lambda w: cp.quad_form(w, S, assume_PSD=True) <= c**2, lambda w: [cp.norm(L @ w, 2) <= c],
                   lambda w: float(np.sqrt(max(w @ S @ w, 0)) - c), form)
    if form == "sum_sq_left":
        r = float(np.sqrt((a**2).sum()) + s)
        return Con(lambda w: cp.sum_squares(w) - r**2 <= 0, lambda w: [cp.norm(w, 2) <= r],
                   lambda w: float(np.sqrt((w**2).sum()) - r), form)
    raise ValueError(form)


def sectors(rng, a, tk):
    """(mapper, lower, upper) satisfied by a."""
    n = len(a)
    names = [["tech", "oil", "Tech", "fin"], ["tech", "fintech", "tech ", "t"], ["a_b", "a", "b", "ab"],
             [0, 1, 10, -1], [1, "1", (1,), True + 1], ["", "x", " ", "xx"]][int(rng.choice(6, p=[0.35, 0.25, 0.1, 0.1, 0.1, 0.1]))]
    names = [names[int(i)] for i in rng.permutation(4)]
    if rng.random() < 0.3:
        # a sector may be called like one of the assets, mapped or not
        names[0] = tk[int(rng.integers(n))]
        if n > 2 and rng.random() < 0.4:
            names[1] = tk[(tk.index(names[0]) + 1) % n]
    g = int(rng.integers(1, min(4, n) + 1))
    mapper = {}
    for t in tk:
        k = int(rng.integers(0, g + 1))
        if k < g:
            mapper[t] = names[k]
        # else: unmapped
    if rng.random() < 0.15:
        mapper["not in the universe"] = names[0]
    lower, upper = {}, {}
    for k in range(g):
        tot = sum(x for t, x in zip(tk, a) if mapper.get(t) == names[k])
        members = sum(1 for t in tk if mapper.get(t) == names[k])
        if not members:
            continue
        s = float(rng.choice([0.005, 0.05, 0.15]))
        if rng.random() < 0.5:
            upper[names[k]] = float(tot + s)
        if rng.random() < 0.5:
            lower[names[k]] = float(tot - s)
        if abs(tot) > 1e-3 and rng.random() < 0.35:
            # limits of exactly zero: no net short (or long) position in the sector
            (lower if tot > 0 else upper)[names[k]] = 0.0
    if rng.random() < 0.2 and upper:
        k = list(upper)[0]
        lower[k] = float(sum(x for t, x in zip(tk, a) if mapper.get(t) == k))
        upper[k] = lower[k]  # exact sector weight
    items = list(mapper.items())
    order = rng.permutation(len(items)) if items else []
    mapper = dict(items[int(x)] for x in order)
    if rng.random() < 0.3:
        mapper["not-in-universe"] = names[0]
    return mapper, lower, upper


def sector_cons(tk, mapper, lower, upper):
    """Canonical rows (A, b) with A w <= b."""
    A, b = [], []
    for s, u in upper.items():
        A.append([1.0 if mapper.get(t) == s else 0.0 for t in tk])
        b.append(u)
    for s, l in lower.items():
        A.append([-1.0 if mapper.get(t) == s else 0.0 for t in tk])
        b.append(-l)
    return np.array(A).reshape(-1, len(tk)), np.array(b)


# ------------------------------------------------------------------ objectives


class Obj:
    """add: callable(opt) adding it as a client does; canon: expr(w); value: numeric."""

    def __init__(self, add, canon, value, form):
        self.add, self.canon, self.value, self.form = add, canon, value, form


OBJ_FORMS = ["l2", "l2_default", "tcost", "l1", "sumsq", "te", "linear"]


def objective(rng, n, S, form=None, scale=1.0):
    from pypfopt import objective_functions as of

    form = form or str(rng.choice(OBJ_FORMS))
    if form == "l2":
        g = float(rng.choice([0.01, 0.1, 1.0])) * scale
        return Obj(lambda o: o.add_objective(of.L2_reg, gamma=g), lambda w: g * cp.sum_squares(w),
                   lambda w: g * float(w @ w), form)
    if form == "l2_default":
        return Obj(lambda o: o.add_objective(of.L2_reg), lambda w: cp.sum_squares(w), lambda w: float(w @ w), form)
    if form == "tcost":
        p = rng.dirichlet(np.ones(n))
        k = float(rng.choice([0.001, 0.01, 0.1])) * scale
        return Obj(lambda o: o.add_objective(of.transaction_cost, w_prev=p, k=k), lambda w: k * cp.norm1(w - p),
                   lambda w: k * float(np.abs(w - p).sum()), form)
    if form == "l1":
        k = float(rng.choice([0.01, 0.1])) * scale
        return Obj(lambda o: o.add_objective(lambda w, k=1: k * cp.norm(w, 1), k=k), lambda w: k * cp.norm1(w),
                   lambda w: k * float(np.abs(w).sum()), form)
    if form == "sumsq":
        c = rng.dirichlet(np.ones(n))
        k = float(rng.choice([0.05, 0.5])) * scale
        return Obj(lambda o: o.add_objective(lambda w, c, k: k * cp.sum_squares(w - c), c=c, k=k),
                   lambda w: k * cp.sum_squares(w - c), lambda w: k * float(((w - c) ** 2).sum()), form)
    if form == "te":
        b = rng.dirichlet(np.ones(n))
        L = ref.psd_root(S)
        return Obj(lambda o: o.add_objective(of.ex_ante_tracking_error, cov_matrix=S, benchmark_weights=b),
                   lambda w: cp.sum_squares(L @ (w - b)), lambda w: float((w - b) @ S @ (w - b)), form)
    v = np.round(rng.normal(0, 0.05, n), 4) * scale
    return Obj(lambda o: o.add_objective(lambda w: v @ w), lambda w: v @ w, lambda w: float(v @ w), form)


# ------------------------------------------------------------------ whole problems

SOLVERS = [None, "CLARABEL", "ECOS"]


class Problem:
    """A mean-risk problem as a client states it plus its canonical form."""

    def __init__(self, rng, n=None, neutral=False, ncons=None, nobj=0, sector=None, bkind=None, convex=True,
                 cov_kind=None, mu_kind=None, tk=None, bnd=None, solver="auto", labelled=True, returns=False, T=None,
                 ret_kind=None, lo=2, hi=10, shorts=None, no_mu=False, daily=False):
        self.rng = rng
        n = n or size(rng, lo, hi)
        self.n, self.neutral = n, neutral
        self.total = 0.0 if neutral else 1.0
        self.tk, self.tkind = (tk, "given") if tk is not None else tickers(rng, n)
        if returns:
            R, self.rkind = returns_panel(rng, n, T, self.tk, ret_kind)
            self.R = R
            self.mu = (R.mean() * 252).to_numpy()
            self.S = ref.pair_cov(R) * 252
            self.ckind, self.mkind = "sample", self.rkind
        else:
            self.R = None
            self.S, self.ckind = covariance(rng, n, cov_kind)
            self.mu, self.mkind = means(rng, n, mu_kind)
            if daily:  # not annualised
                self.S, self.mu = self.S / 252, self.mu / 252
                self.ckind, self.mkind = self.ckind + "-daily", self.mkind + "-daily"
        if returns:
            self.arg_mu, self.mform = as_mu(rng, self.mu, self.tk, None)
            self.arg_cov, self.cform = None, None
        else:
            self.arg_mu, self.mform = as_mu(rng, self.mu, self.tk)
            self.arg_cov, self.cform = as_cov(rng, self.S, self.tk)
        self.no_mu = no_mu
        if no_mu:
            self.arg_mu, self.mform = None, "none"
        if self.mform != "series" and (returns or self.cform == "array"):
            self.tk = list(range(n))
        self.arg_bounds, self.lb, self.ub, self.a, self.bkind = bounds(rng, n, self.total, bkind, shorts)
        if ncons is None:
            ncons = int(rng.choice([0, 1, 2, 3], p=[0.4, 0.3, 0.2, 0.1]))
        self.cons = [constraint(rng, self.a, self.S, self.lb, self.ub, convex=convex) for _ in range(ncons)] if n > 1 else []
        # at most one equality beyond the budget per two assets
        eqs = [c for c in self.cons if "eq" in c.form]
        if len(eqs) > 1 or (eqs and n < 3):
            keep = eqs[0] if n >= 3 else None
            self.cons = [c for c in self.cons if "eq" not in c.form or c is keep]
        if sector is None:
            sector = rng.random() < 0.2
        self.sec = sectors(rng, self.a, self.tk) if sector and n > 1 else None
        self.objs = [objective(rng, n, self.S) for _ in range(nobj)]
        if solver == "auto":
            solver = SOLVERS[int(rng.choice(3, p=[0.35, 0.5, 0.15]))]
        self.solver = solver

    # ---- client side
    def make(self, cls, *args, **kw):
        o = cls(*args, weight_bounds=self.arg_bounds, solver=self.solver, **kw)
        self.dress(o)
        return o

    def ef(self, cls=None, **kw):
        from pypfopt import EfficientFrontier

        cls = cls or EfficientFrontier
        return self.make(cls, self.arg_mu, self.arg_cov, **kw)

    def dress(self, o):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for c in self.cons:
                o.add_constraint(c.written)
            if self.sec:
                o.add_sector_constraints(*self.sec)
            for ob in self.objs:
                ob.add(o)

    # ---- oracle side
    def ref_cons(self, w, total="own", bnd=True):
        total = self.total if isinstance(total, str) else total
        cons = ref.base_cons(w, self.lb, self.ub, total) if bnd else []
        for c in self.cons:
            cons += c.canon(w)
        if self.sec:
            A, b = sector_cons(self.tk, *self.sec)
            if len(b):
                cons.append(A @ w <= b)
        return cons

    def violation(self, w, total="own"):
        total = self.total if isinstance(total, str) else total
        v = [0.0]
        if total is not None:
            v.append(abs(float(w.sum()) - total))
        v += [float(np.max(self.lb - w)), float(np.max(w - self.ub))]
        v += [c.viol(w) for c in self.cons]
        if self.sec:
            A, b = sector_cons(self.tk, *self.sec)
            if len(b):
                v.append(float(np.max(A @ w - b)))
        return max(v)

    def extra(self, w):
        return sum(o.value(w) for o in self.objs)

    def extra_canon(self, w):
        return sum(o.canon(w) for o in self.objs) if self.objs else 0

    def describe(self):
        d = dict(n=self.n, tickers=self.tkind, mu=self.mkind + "/" + self.mform, cov="%s/%s" % (self.ckind, self.cform),
                 bounds=self.bkind, neutral=self.neutral, cons=[c.form for c in self.cons],
                 sectors=None if not self.sec else [len(self.sec[1]), len(self.sec[2])], objs=[o.form for o in self.objs],
                 solver=self.solver, weight_bounds=repr(self.arg_bounds)[:300])
        return d

    def signature(self):
        return (self.n if self.n < 5 else "5+", self.bkind, self.neutral, ",".join(sorted(c.form for c in self.cons)),
                bool(self.sec), ",".join(sorted(o.form for o in self.objs)), self.solver, self.ckind, self.mform)

    def port(self, result):
        return np.array([result[t] for t in self.tk], float)
