"""Shared Black-Litterman workload: a model as a client states it plus its canonical inputs."""

from .common import *


class BL:
    def __init__(self, rng, n=None, lo=1, hi=9, K=None, omega=None, views=None, cov=None, singular=False, tk=None, pi=None):
        self.rng = rng
        n = n or gen.size(rng, lo, hi, 0.08)
        self.n = n
        kinds = ["factor", "wishart", "diag", "block"] + (["deficient"] if singular else [])
        self.S, self.ck = gen.covariance(rng, n, cov or str(rng.choice(kinds)))
        # other units of return: daily, percent
        self.unit = float(10.0 ** rng.uniform(-4, 2)) if rng.random() < 0.2 else 1.0
        self.S = self.S * self.unit ** 2
        self.tk = tk or gen.tickers(rng, n)[0]
        self.cform = "frame" if rng.random() < 0.75 else "array"
        self.arg_cov = pd.DataFrame(self.S, self.tk, self.tk) if self.cform == "frame" else np.array(self.S)
        if self.cform == "array":
            self.tk = list(range(n))
        self.tau = float(rng.choice([0.05, 0.01, 0.025, 0.3, 1.0]))
        self.delta = float(rng.choice([1.0, 2.5, 0.7]))
        self.kw = {}
        if self.tau != 0.05 or rng.random() < 0.5:
            self.kw["tau"] = self.tau
        if self.delta != 1.0 or rng.random() < 0.5:
            self.kw["risk_aversion"] = self.delta
        # prior
        pform = pi or str(rng.choice(["series", "array", "column", "frame", "equal", "none", "market"], p=[.3, .2, .1, .05, .1, .1, .15]))
        self.pform = pform
        self.pi = rng.normal(0.06, 0.08, n) * self.unit
        if pform == "series":
            self.kw["pi"] = pd.Series(self.pi, index=self.tk)
        elif pform == "array":
            self.kw["pi"] = np.array(self.pi)
        elif pform == "column":
            self.kw["pi"] = self.pi.reshape(-1, 1).copy()
        elif pform == "frame":
            self.kw["pi"] = pd.DataFrame({"pi": self.pi}, index=self.tk)
        elif pform == "equal":
            self.kw["pi"] = "equal"
            self.pi = np.full(n, 1.0 / n)
        elif pform == "none":
            self.pi = np.zeros(n)
        else:
            caps = rng.uniform(1, 100, n) * 1e9
            self.caps = caps
            rf = float(rng.choice([0.0, 0.02])) * self.unit
            self.kw["pi"] = "market"
            items = list(zip(self.tk, caps))
            if self.cform == "frame":
                items = [items[int(i)] for i in rng.permutation(n)]
            d = dict(items)
            self.kw["market_caps"] = d if rng.random() < 0.5 else pd.Series([x for _, x in items], index=[t for t, _ in items])
            if rf:
                self.kw["risk_free_rate"] = rf
            self.pi = self.delta * self.S @ (caps / caps.sum()) + rf
        # views
        vform = views or str(rng.choice(["dict", "vseries", "PQ", "PQframe", "Qonly"], p=[.35, .15, .3, .1, .1]))
        if vform == "Qonly" and K is not None and K != n:
            vform = "PQ"
        if vform == "Qonly":
            K = n
        if K is None:
            K = int(rng.integers(1, n + 1))
        self.K, self.vform = K, vform
        self.Q = rng.normal(0.08, 0.12, K) * self.unit
        if vform in ("dict", "vseries"):
            pick = [int(i) for i in rng.permutation(n)[:K]]
            self.P = np.zeros((K, n))
            self.P[range(K), pick] = 1
            d = {self.tk[i]: float(q) for i, q in zip(pick, self.Q)}
            self.kw["absolute_views"] = d if vform == "dict" else pd.Series(list(d.values()), index=list(d), dtype=float)
        elif vform == "Qonly":
            self.P = np.eye(n)
            self.kw["Q"] = np.array(self.Q) if rng.random() < 0.5 else pd.Series(self.Q)
        else:
            self.P = self.picking(rng, K, n)
            if vform == "PQ":
                self.kw["Q"] = np.array(self.Q) if rng.random() < 0.5 else self.Q.reshape(-1, 1).copy()
                self.kw["P"] = np.array(self.P)
            else:
                self.kw["Q"] = pd.Series(self.Q) if rng.random() < 0.5 else pd.DataFrame({"q": self.Q})
                self.kw["P"] = pd.DataFrame(self.P, columns=self.tk)
        # view uncertainty
        oform = omega or str(rng.choice(["none", "default", "diag", "full", "frame", "idzorek"], p=[.25, .1, .25, .15, .1, .15]))
        self.oform = oform
        self.base = np.diag(self.P @ self.S @ self.P.T) * self.tau
        if oform in ("none", "default"):
            self.omega = np.diag(self.base)
            if oform == "default":
                self.kw["omega"] = "default"
        elif oform in ("diag", "frame"):
            self.omega = np.diag(rng.uniform(0.05, 5, K) * self.base)
            self.kw["omega"] = pd.DataFrame(self.omega) if oform == "frame" else np.array(self.omega)
        elif oform == "full":
            X = rng.normal(0, 1, (K, K + 2))
            d = np.sqrt(self.base)
            C = X @ X.T / (K + 2)
            self.omega = C * d[:, None] * d[None]
            self.kw["omega"] = np.array(self.omega)
        else:
            self.conf = rng.uniform(0.05, 1.0, K)
            if K and rng.random() < 0.15:
                self.conf[int(rng.integers(K))] = 1.0
            if K and rng.random() < 0.3:  # hardly any confidence, or nearly all
                c = 10 ** float(rng.uniform(-6, -1))
                self.conf[int(rng.integers(K))] = c if rng.random() < 0.7 else 1 - c
            self.kw["omega"] = "idzorek"
            c = self.conf
            self.kw["view_confidences"] = [list(c), np.array(c), c.reshape(-1, 1).copy(), pd.Series(c), tuple(c)][int(rng.integers(5))]
            self.omega = np.diag((1 - c) / c * self.base)
        self.prior_free = None

    @staticmethod
    def picking(rng, K, n):
        P = np.zeros((K, n))
        for k in range(K):
            f = str(rng.choice(["abs", "rel", "basket", "weighted"]))
            if n == 1 or f == "abs":
                P[k, int(rng.integers(n))] = 1
            elif f == "rel":
                i, j = rng.permutation(n)[:2]
                P[k, i], P[k, j] = 1, -1
            elif f == "basket":
                m = int(rng.integers(2, n + 1))
                P[k, rng.permutation(n)[:m]] = 1.0 / m
            else:
                P[k] = np.round(rng.normal(0, 1, n), 2)
            if not np.any(P[k]):
                P[k, 0] = 1
        return P

    def model(self, **over):
        from pypfopt import BlackLittermanModel

        kw = dict(self.kw)
        kw.update(over)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return BlackLittermanModel(self.arg_cov, **kw)

    def gain(self):
        """Condition of the view system (to scale tolerances)."""
        A = self.tau * self.P @ self.S @ self.P.T + self.omega
        return np.linalg.cond(A)

    def posterior(self):
        return ref.bl_posterior(self.S, self.pi, self.P, self.Q, self.omega, self.tau)

    def weights_defined(self):
        """The implied weights are normalised: they exist only if their raw sum is not (almost) zero."""
        if np.linalg.cond(self.S) > 1e7 or self.gain() > 1e7:
            return False
        raw = np.linalg.solve(self.S, self.posterior()[0])
        return abs(raw.sum()) > 1e-3 * np.abs(raw).sum()

    def describe(self):
        return dict(n=self.n, K=self.K, prior=self.pform, views=self.vform, omega=self.oform, cov=self.ck + "/" + self.cform,
                    tau=self.tau, risk_aversion=self.delta, unit=self.unit)

    def signature(self):
        return (self.n, self.K, self.pform, self.vform, self.oform, self.cform, self.tau)
