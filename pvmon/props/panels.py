"""Shared price/return panels for the estimator properties."""

from .common import *

FREQS = [252, 52, 12, 1]


class Data:
    """A price panel as a client has it, with the returns it implies."""

    def __init__(self, rng, n=None, missing=None, log=None, form=None, T=None, n_lo=1):
        self.rng = rng
        self.n = n = n or gen.size(rng, n_lo, 10, 0.08)
        self.missing = missing if missing is not None else str(rng.choice(["none", "late", "early", "gaps", "rows"], p=[.5, .15, .1, .15, .1]))
        self.T = T or int(rng.choice([6, 12, 25, 60, 120, 300, 1300], p=[.17, .17, .16, .16, .16, .16, .02]))
        self.P, self.kind = gen.price_panel(rng, n, T=self.T, missing=None if self.missing == "none" else self.missing)
        if self.missing == "gaps" and self.T < 25:
            self.missing = "none"
            self.P, self.kind = gen.price_panel(rng, n, T=self.T)
        self.tk = list(self.P.columns)
        self.log = bool(rng.random() < 0.3) if log is None else log
        if rng.random() < 0.05:  # a collapse or multiplication, e.g. a split that was not adjusted for
            self.P.iloc[int(rng.integers(1, self.T)):, int(rng.integers(n))] *= 10.0 ** rng.uniform(-0.03 if self.log else -2, 2)  # log returns below -1 cannot be compounded
            self.kind += "+shock"
        self.freq = int(rng.choice(FREQS)) if rng.random() < 0.6 else 252
        self.R = ref.simple_returns(self.P, self.log)
        self.form = form or str(rng.choice(["prices", "returns", "array"], p=[.5, .35, .15]))
        if self.missing != "none" and self.form == "array":
            self.form = "prices"
        ok = all((~np.isnan(self.R.to_numpy())).sum(0) >= 3)
        pair = pair_counts(self.R)
        self.usable = ok and pair.min() >= 3

    def arg(self):
        if self.form == "prices":
            return self.P.copy()
        if self.form == "returns":
            return self.R.copy()
        return self.P.to_numpy().copy()

    def kw(self, default_log=False):
        k = {}
        if self.freq != 252 or self.rng.random() < 0.3:
            k["frequency"] = self.freq
        if self.form == "returns":
            k["returns_data"] = True
        elif self.log or self.rng.random() < 0.2:
            k["log_returns"] = self.log
        return k

    @property
    def labels(self):
        return list(range(self.n)) if self.form == "array" else self.tk

    def describe(self):
        return dict(n=self.n, T=self.T, missing=self.missing, log=self.log, frequency=self.freq, form=self.form, kind=self.kind)

    def signature(self, *more):
        return (self.n, self.T, self.missing, self.log, self.freq, self.form) + more


def pair_counts(R):
    M = (~np.isnan(R.to_numpy(float))).astype(int)
    return M.T @ M


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def psd_target(S, method="spectral"):
    """What a symmetric matrix becomes after the documented repair; None when on the edge."""
    q = np.linalg.eigvalsh(S)
    s = np.abs(q).max()
    if q[0] >= -1e-12 * s:
        return S
    if method == "spectral":
        return ref.spectral(S)
    return S + 1.1 * abs(q[0]) * np.eye(len(S))


def matrix_rules(ctx, C, labels, tag):
    ctx.check(isinstance(C, pd.DataFrame) and list(C.index) == labels and list(C.columns) == labels, tag + "-labels",
              "%r" % (getattr(C, "columns", None),))
    V = np.asarray(C, float)
    s = max(float(np.abs(V).max()), 1e-300)
    ctx.check(np.isfinite(V).all(), tag + "-finite")
    ctx.check(np.abs(V - V.T).max() <= 1e-12 * s, tag + "-symmetric", np.abs(V - V.T).max())
    ctx.check(np.linalg.eigvalsh((V + V.T) / 2).min() >= -1e-10 * s * len(V), tag + "-psd", "least eigenvalue %.3g of %.3g" % (
        np.linalg.eigvalsh((V + V.T) / 2).min(), s))
    return V
