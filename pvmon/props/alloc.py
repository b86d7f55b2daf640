"""Shared allocation workloads: weights, price lists and portfolio values as a client has them."""

from .common import *

from pypfopt import DiscreteAllocation  # noqa: E402


def long_weights(rng, n, kind=None):
    kind = kind or str(rng.choice(["dirichlet", "equal", "decimal", "clean", "partial", "sparse", "one", "tiny"],
                                  p=[.25, .1, .12, .18, .12, .13, .05, .05]))
    if kind == "dirichlet":
        w = rng.dirichlet(np.full(n, float(rng.choice([0.3, 1, 10]))))
    elif kind == "equal":
        w = np.full(n, 1.0 / n)
    elif kind == "decimal":
        w = rng.multinomial(20, np.ones(n) / n) / 20
    elif kind == "clean":
        w = np.round(rng.dirichlet(np.full(n, 0.5)), int(rng.choice([4, 5])))
    elif kind == "partial":
        w = rng.dirichlet(np.ones(n)) * float(rng.uniform(0.05, 0.99))
    elif kind == "sparse":
        w = rng.dirichlet(np.ones(n))
        w[rng.random(n) < 0.5] = 0
        w = w / w.sum() if w.sum() > 0 else np.eye(n)[0]
    elif kind == "one":
        w = np.eye(n)[int(rng.integers(n))]
    else:
        w = rng.dirichlet(np.ones(n))
        w[int(rng.integers(n))] = 1e-7
        w = w / w.sum()
    return w, kind


def value(rng):
    k = str(rng.choice(["10k", "int", "float", "small", "large"], p=[.25, .2, .3, .15, .1]))
    V = {"10k": 10000, "int": int(rng.integers(500, 50000)), "float": float(np.round(rng.uniform(500, 50000), 2)),
         "small": float(rng.uniform(5, 300)), "large": float(rng.choice([1e6, 2.5e6]))}[k]
    return V, k


def price_list(rng, n, w, V, kind=None):
    kind = kind or str(rng.choice(["round", "cents", "share", "cheap", "spread", "dear", "whole", "same"],
                                  p=[.15, .3, .12, .12, .12, .08, .06, .05]))
    if kind == "round":
        p = rng.choice([0.5, 1, 2, 5, 10, 20, 50, 100], n).astype(float)
    elif kind == "cents":
        p = np.round(rng.lognormal(4, 1, n), 2)
    elif kind == "share":
        p = np.maximum(w, 0.02) * V / rng.integers(1, 30, n)
    elif kind == "cheap":
        p = np.round(rng.uniform(0.5, 5, n) * V / 1e4, 4)
    elif kind == "spread":
        p = V * 10.0 ** rng.uniform(-3.5, 0.5, n)
    elif kind == "dear":
        p = V * rng.uniform(0.2, 1.6, n)
    elif kind == "whole":
        p = rng.integers(1, 500, n)
    else:
        p = np.full(n, float(np.round(rng.lognormal(3, 1), 2)))
    if p.dtype.kind == "f":
        p = np.maximum(p, V * 1e-5 if kind != "whole" else 1)
    return p, kind


class Book:
    """A weight mapping plus a price series, possibly with more assets and in another order."""

    def __init__(self, rng, n=None, shorts=False, hi=14, wkind=None, pkind=None):
        self.n = n = n or int(rng.choice([1, 2, 3, 4, 5, 6, 8, 11, hi]))
        if shorts:
            n = self.n = max(2, n)
        self.tk, self.tkind = gen.tickers(rng, n, kind=None)
        self.V, self.vkind = value(rng)
        self.w, self.wkind = long_weights(rng, n, wkind)
        self.p, self.pkind = price_list(rng, n, self.w, self.V, pkind)
        if shorts:
            k = int(rng.integers(1, n))
            idx = rng.permutation(n)[:k]
            self.w = rng.dirichlet(np.ones(n)) * float(rng.choice([1, 1.3, 1.6]))
            self.w[idx] *= -float(rng.uniform(0.1, 0.9))
            f = str(rng.choice(["as is", "net", "clean", "zero", "allshort"], p=[.24, .24, .24, .22, .06]))
            if f == "net" and self.w.sum() > 0.2:
                self.w = self.w / self.w.sum()
            elif f == "clean":
                self.w = np.round(self.w, 4)
            elif f == "zero":
                self.w[(self.w > 0) & (rng.random(n) < 0.3)] = 0.0
            elif f == "allshort":
                self.w = -np.abs(self.w)
                self.w[(rng.random(n) < 0.2) & (np.arange(n) > 0)] = 0.0
            self.wkind = "short-" + f
            if f != "allshort" and not ((self.w > 0).any() and (self.w < 0).any()):
                self.w[0], self.w[-1] = 1.2, -0.2
        self.weights = dict(zip(self.tk, (float(x) for x in self.w)))
        lab, pr = list(self.tk), list(self.p)
        if rng.random() < 0.4:
            for j in range(int(rng.integers(1, 4))):
                e = "EXTRA%d" % j if isinstance(lab[0], str) else 10**6 + j
                lab.append(e)
                pr.append(float(np.round(rng.lognormal(2, 1), 2)) + 0.01)
        if rng.random() < 0.5:
            o = [int(i) for i in rng.permutation(len(lab))]
            lab, pr = [lab[i] for i in o], [pr[i] for i in o]
        self.permuted = lab[:n] != list(self.tk)
        self.prices = pd.Series(pr, index=lab)
        if self.p.dtype.kind in "iu" and len(lab) == n:
            self.prices = self.prices.astype(int)

    def da(self, **kw):
        if self.V != 10000 or "total_portfolio_value" in kw:
            kw.setdefault("total_portfolio_value", self.V)
        return DiscreteAllocation(dict(self.weights), self.prices.copy(), **kw)

    def describe(self):
        return dict(n=self.n, weights=self.wkind, prices=self.pkind, value=self.V, permuted=self.permuted)

    def signature(self, *more):
        return (self.n, self.wkind, self.pkind, self.vkind, self.permuted) + more


def shares(book, alloc):
    return np.array([alloc.get(t, 0) for t in book.tk], float)


def long_only_rules(ctx, b, alloc, left, tag, inttol=0.0):
    """Budget, conservation and whole shares, from the client's inputs only."""
    ctx.check(isinstance(alloc, dict) and all(t in b.weights for t in alloc), tag + "-assets", "%r" % (list(alloc)[:8],))
    ctx.check(all(isinstance(x, (int, np.integer)) and x > 0 for x in alloc.values()), tag + "-whole",
              "%r" % (dict(alloc),), problem=b.describe())
    x = shares(b, alloc)
    cost = float(x @ np.array([float(b.prices[t]) for t in b.tk]))
    tol = 1e-8 * b.V + inttol * float(sum(float(b.prices[t]) for t in b.tk))
    ctx.check(cost <= b.V + tol, tag + "-budget", "costs %.9g of %.9g" % (cost, b.V), weights=b.weights, prices=b.prices)
    ctx.check(float(left) >= -tol, tag + "-leftover-sign", "%r" % left)
    return x, cost
