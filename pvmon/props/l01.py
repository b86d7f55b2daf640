"""L01 Permuting or renaming assets: the same client program on transformed inputs; results must transform the same way."""

import copy

from .risklib import *

BUDGET = {"quick": {"est": 850, "ef": 630, "hist": 480, "cla": 290, "bl": 630, "rename": 1020},
          "thorough": {"est": 17000, "ef": 12600, "hist": 9600, "cla": 5800, "bl": 12600, "rename": 20400}}
RULE = ("Each case runs one client program twice: on drawn inputs and on the same inputs with assets permuted (columns, rows, bounds, "
        "constraint coefficients; label-keyed mappings reshuffled) and/or renamed (strings, integers, lookalikes, orders in which "
        "sorting differs from position). Estimates, posteriors and implied weights must match entry by entry; optimisers in the "
        "objective value and, for strictly convex problems, in the weights; frontiers pointwise.")
MIN = {"chk:est-values": 800, "chk:perm-objective": 300, "chk:bl-values": 300, "chk:rename-values": 300}
ASSUMES = ["ties between optimal portfolios are settled by objective value"]


def relabel(rng, tk, force=False):
    n = len(tk)
    if not force and rng.random() < 0.4:
        return list(tk)
    kind = str(rng.choice(["random", "alpha", "int", "lookalike", "reversed"]))
    if kind == "reversed":
        return ["N%03d" % i for i in range(n)][::-1]
    return list(gen.tickers(rng, n, kind)[0])


class T:
    """A transformation: position i of the new inputs is asset perm[i] of the old, under the name names[i]."""

    def __init__(self, rng, tk, permute=True, force_names=False):
        self.n = len(tk)
        self.perm = rng.permutation(self.n) if permute else np.arange(self.n)
        new = relabel(rng, tk, force_names)  # new[j] is the new name of old asset j
        self.old, self.new = list(tk), new
        self.names = [new[int(j)] for j in self.perm]
        self.map = dict(zip(tk, new))
        self.rng = rng

    def vec(self, x):
        return np.asarray(x)[self.perm]

    def mat(self, S):
        return np.asarray(S)[np.ix_(self.perm, self.perm)]

    def frame(self, D):
        out = D.iloc[:, list(self.perm)].copy()
        out.columns = self.names
        return out

    def square(self, D):
        return pd.DataFrame(self.mat(D.to_numpy()), index=self.names, columns=self.names)

    def series(self, s):
        return pd.Series(self.vec(s.to_numpy()), index=self.names)

    def dict(self, d):
        items = [(self.map.get(k, k), v) for k, v in d.items()]
        return {items[int(i)][0]: items[int(i)][1] for i in self.rng.permutation(len(items))}

    def back(self, w):
        """New-order vector to old order."""
        out = np.empty(self.n)
        out[self.perm] = w
        return out


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return attempt(fn)


def run_case(ctx):
    dict(est=est, ef=ef, hist=hist, cla=cla, bl=bl, rename=rename)[ctx.kind](ctx)


# ------------------------------------------------------------------ estimators


def estimators(rng, returns):
    import pypfopt.expected_returns as er
    import pypfopt.risk_models as rm

    f = int(rng.choice([252, 52]))
    lg = bool(rng.random() < 0.4)
    span = int(rng.choice([20, 60, 180]))
    kw = dict(returns_data=returns)
    E = {
        "mean": lambda D, m: er.mean_historical_return(D, compounding=lg, frequency=f, **kw),
        "ema": lambda D, m: er.ema_historical_return(D, compounding=lg, span=span, frequency=f, **kw),
        "capm": lambda D, m: er.capm_return(D, market_prices=m, risk_free_rate=0.02, frequency=f, **kw),
        "capm0": lambda D, m: er.capm_return(D, risk_free_rate=0.01, frequency=f, **kw),
        "return_model": lambda D, m: er.return_model(D, method="ema_historical_return", span=span, **kw),
    }
    C = {
        "cov": lambda D, m: rm.sample_cov(D, frequency=f, **kw),
        "semi": lambda D, m: rm.semicovariance(D, frequency=f, benchmark=0.0003, **kw),
        "exp": lambda D, m: rm.exp_cov(D, span=span, frequency=f, **kw),
        "shrunk": lambda D, m: rm.CovarianceShrinkage(D, frequency=f, **kw).shrunk_covariance(0.25),
        "lw": lambda D, m: rm.CovarianceShrinkage(D, frequency=f, **kw).ledoit_wolf(),
        "lw_single": lambda D, m: rm.CovarianceShrinkage(D, frequency=f, **kw).ledoit_wolf("single_factor"),
        "lw_cc": lambda D, m: rm.risk_matrix(D, method="ledoit_wolf_constant_correlation", frequency=f, **kw),
        "oas": lambda D, m: rm.CovarianceShrinkage(D, frequency=f, **kw).oracle_approximating(),
    }
    return E, C


def est(ctx):
    import pypfopt.expected_returns as er
    import pypfopt.risk_models as rm

    rng = ctx.rng
    n = int(rng.integers(2, 9))
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "alpha", "int", "lookalike"])))
    missing = [None, None, "late", "early", "gaps"][int(rng.integers(5))]
    prices, _ = gen.price_panel(rng, n, int(rng.choice([30, 60, 120])), tk, missing=missing)
    returns = bool(rng.random() < 0.4)
    D = prices.pct_change(fill_method=None).dropna(how="all") if returns else prices
    m = pd.DataFrame({"mkt": (prices.ffill().bfill().mean(axis=1) * (1 + 0.001 * rng.normal(size=len(prices)))).to_numpy()}, index=prices.index)
    if returns:
        m = m.pct_change().dropna()
    t = T(rng, tk)
    D2 = t.frame(D)
    E, C = estimators(rng, returns)
    for nm in rng.choice(list(E), 3, replace=False):
        a, ea = quiet(lambda: E[nm](D, m))
        b, eb = quiet(lambda: E[nm](D2, m))
        if not ctx.check(ea == eb, "est-outcome", "%s: %r on the original, %r on the permuted data" % (nm, ea, eb)) or ea:
            continue
        ctx.check(list(b.index) == t.names, "est-labels", "%s: labels %r for columns %r" % (nm, list(b.index)[:6], t.names[:6]))
        ctx.close(np.asarray(b, float), t.vec(np.asarray(a, float)), "est-values", rtol=1e-8, atol=1e-10, msg="%s (missing %s)" % (nm, missing), tickers=tk, names=t.names)
    for nm in rng.choice(list(C), 3, replace=False):
        if missing and nm in ("lw", "lw_single", "lw_cc", "oas"):
            continue
        a, ea = quiet(lambda: C[nm](D, m))
        b, eb = quiet(lambda: C[nm](D2, m))
        if not ctx.check(ea == eb, "est-outcome", "%s: %r on the original, %r on the permuted data" % (nm, ea, eb)) or ea:
            continue
        ctx.check(list(b.index) == t.names and list(b.columns) == t.names, "est-labels", "%s: labels %r for columns %r" % (nm, list(b.columns)[:6], t.names[:6]))
        A = np.asarray(a, float)
        ctx.close(np.asarray(b, float), t.mat(A), "est-values", rtol=1e-6, atol=1e-8 * max(1e-3, np.nanmax(np.abs(A))), msg="%s (missing %s)" % (nm, missing), tickers=tk, names=t.names)
        if nm == "cov":
            c1, c2 = rm.cov_to_corr(a), rm.cov_to_corr(b)
            ctx.check(list(c2.columns) == t.names, "est-labels", "cov_to_corr")
            ctx.close(np.asarray(c2), t.mat(c1), "est-values", rtol=1e-6, atol=1e-9, msg="cov_to_corr")
    r1, r2 = (er.prices_from_returns(D), er.prices_from_returns(D2)) if returns else (er.returns_from_prices(D), er.returns_from_prices(D2))
    ctx.check(list(r2.columns) == t.names, "est-labels", "conversion")
    ctx.close(r2.to_numpy(), r1.to_numpy()[:, t.perm], "est-values", rtol=1e-12, atol=1e-14, msg="conversion")
    ctx.sig("est", n, missing, returns, type(tk[0]).__name__, type(t.names[0]).__name__)


# ------------------------------------------------------------------ convex optimisers


class Twin:
    """A problem without positional client expressions, and its image."""

    def __init__(self, ctx, kind):
        rng = ctx.rng
        self.kind = kind
        self.neutral = rng.random() < 0.2
        if kind == "ef":
            P = gen.Problem(rng, neutral=self.neutral, ncons=0, solver="CLARABEL", cov_kind=str(rng.choice(["factor", "wishart", "block"])),
                            tk=gen.tickers(rng, k := gen.size(rng, 2, 9), str(rng.choice(["random", "int", "lookalike", "alpha"])))[0], n=k)
            self.risk = lambda w: ref.vol(w, P.S)
        else:
            Q = Panel(ctx, kind, neutral=self.neutral, ncons=0)
            Q.make()
            self.Q, P, self.risk = Q, Q.P, Q.risk
        self.P = P
        n = P.n
        self.t = T(rng, P.tk)
        self.rows = []
        for _ in range(int(rng.integers(0, 3)) if n > 2 else 0):
            v = np.round(rng.normal(0, 1, n), 3)
            self.rows.append((v, float(v @ P.a + rng.choice([0.01, 0.05]))))
        self.objs = []
        if rng.random() < 0.35:
            self.objs.append(("l2", float(rng.choice([0.05, 0.5])), None))
        if rng.random() < 0.25:
            self.objs.append(("tc", 0.01, rng.dirichlet(np.ones(n))))
        self.labelled = P.mform == "series" or P.cform == "frame" if kind == "ef" else P.mform == "series"

    def build(self, image):
        from pypfopt import EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance
        of = pypfopt.objective_functions
        P, t, rng = self.P, self.t, self.P.rng
        p = (lambda x: t.vec(x)) if image else (lambda x: np.asarray(x))
        names = t.names if image else P.tk
        lb, ub = p(P.lb), p(P.ub)
        wb = (lb, ub) if P.n > 2 and not np.any(np.isinf(ub)) else [(float(a), None if np.isinf(b) else float(b)) for a, b in zip(lb, ub)]
        mu = p(P.mu)
        if P.mform == "series":
            mu = pd.Series(mu, index=names)
        if self.kind == "ef":
            S = t.mat(P.S) if image else P.S
            if P.cform == "frame":
                S = pd.DataFrame(S, index=names, columns=names)
            o = EfficientFrontier(mu, S, weight_bounds=wb, solver="CLARABEL")
        else:
            Q = self.Q
            R = Q.R_arg
            if image:
                R = t.frame(R) if isinstance(R, pd.DataFrame) else R[:, t.perm]
            kw = dict(benchmark=Q.benchmark, frequency=Q.freq) if self.kind == "semi" else dict(beta=Q.beta)
            o = {"semi": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}[self.kind](mu, R, weight_bounds=wb, solver="CLARABEL", **kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for v, c in self.rows:
                o.add_constraint((lambda v, c: lambda w: v @ w <= c)(p(v), c))
            if P.sec and self.labelled:
                m, lo, hi = P.sec
                o.add_sector_constraints(t.dict(m) if image else m, lo, hi)
            for k, g, x in self.objs:
                if k == "l2":
                    o.add_objective(of.L2_reg, gamma=g)
                else:
                    o.add_objective(of.transaction_cost, w_prev=p(x), k=g)
        return o, (names if self.labelled else list(range(P.n)))

    def extra(self, w):
        return sum(g * float(w @ w) if k == "l2" else g * float(np.abs(w - x).sum()) for k, g, x in self.objs)


def twin(ctx, kind):
    rng = ctx.rng
    W = Twin(ctx, kind)
    P, t = W.P, W.t
    mu_a, ra = float(P.a @ P.mu), max(float(W.risk(P.a)), 1e-3)
    nkw = dict(market_neutral=True) if W.neutral else {}
    nm = "min_volatility" if kind == "ef" else SPEC[kind]["minimise"]
    ms = [nm] if not (kind == "ef" and W.neutral) else []
    ms += ["efficient_risk", "efficient_return"] + (["max_quadratic_utility"] if kind in ("ef", "semi") else [])
    if kind == "ef" and not W.neutral and mu_a > 0.02 and not W.objs:
        ms += ["max_sharpe"] * 2
    m = str(rng.choice(ms))
    if m == "efficient_return":
        tgt = mu_a - 0.01
        if kind != "ef" and (tgt <= 1e-4 or (kind == "semi" and tgt >= np.abs(P.mu).max())):
            m = "efficient_risk"
    arg = {"efficient_risk": ra * 1.2, "efficient_return": mu_a - 0.01, "max_sharpe": 0.01, "max_quadratic_utility": 2.0}.get(m)
    if m in ("min_volatility", "max_sharpe"):
        nkw = {}
    elif kind == "semi" and m == "max_quadratic_utility":
        pass

    def go(image):
        o, names = W.build(image)
        if m == "max_sharpe":
            return o, names, attempt(lambda: o.max_sharpe(risk_free_rate=arg))
        f = getattr(o, m)
        return o, names, attempt(lambda: f(arg, **nkw) if arg is not None else f(**nkw))

    o1, n1, (r1, e1) = go(False)
    s1 = ST.status
    o2, n2, (r2, e2) = go(True)
    s2 = ST.status
    ctx.note(method=m, problem=P.describe(), perm=list(t.perm), names=t.names)
    if (e1 is None) != (e2 is None):
        # numerical refusals only count when the solver is certain
        if "inaccurate" in str(e1) + str(e2) or "solver" in str(e1) + str(e2):
            raise Skip("solver trouble")
        ctx.check(False, "perm-outcome", "%s.%s: %s, permuted: %s" % (kind, m, e1 or "solved", e2 or "solved"), problem=P.describe())
        return
    if e1 is not None:
        raise Skip("refused: %s" % e1)
    if not ctx.check(list(r2) == list(n2), "perm-labels", "%s: labels %r for %r" % (m, list(r2)[:6], list(n2)[:6])):
        return
    ctx.check(list(r1) == list(n1), "perm-labels", "%s: labels %r for %r" % (m, list(r1)[:6], list(n1)[:6]))
    w1 = np.array([r1[x] for x in n1])
    w2 = t.back(np.array([r2[x] for x in n2]))
    rsk = W.risk

    def val(w):
        if m == "max_sharpe":
            return -(w @ P.mu - arg) / rsk(w)
        if m == "max_quadratic_utility":
            return -float(w @ P.mu) + arg / 2 * rsk(w) ** 2 + W.extra(w)
        if m == "efficient_risk":
            return -float(w @ P.mu) + W.extra(w)
        return (rsk(w) ** 2 if kind in ("ef", "semi") else rsk(w)) + W.extra(w)

    a, b = val(w1), val(w2)
    exact = s1 == s2 == "optimal"
    tol = (1e-4 if exact else 2e-2) * max(abs(a), 1e-3) + (1e-4 if m == "efficient_risk" else 2e-6) * max(1, np.abs(w1).sum())
    if kind == "semi":
        if m == "efficient_risk":  # the solver's accuracy on the squared risk, carried over to the return
            tol += abs(a) * min(1.0, 2e-7 * W.Q.freq / arg**2)
        tol += 4e-8 * W.Q.freq * (1 if exact else 100) + 1e-5 * (W.Q.freq / 252)
    ctx.info["relgap"] = abs(a - b) / tol
    ctx.check(abs(a - b) <= tol, "perm-objective", "%s.%s: objective %.9g, permuted %.9g" % (kind, m, a, b), problem=P.describe(), w=w1, permuted=w2)
    ctx.event("twin", method=m, a=a, b=b)
    if kind == "ef" and exact and np.linalg.eigvalsh(P.S)[0] > 2e-3 and m in ("min_volatility", "max_quadratic_utility"):
        ctx.close(w2, w1, "perm-weights", rtol=0, atol=2e-3, msg=m, problem=P.describe())
    p1, p2 = o1.portfolio_performance(), o2.portfolio_performance()
    if exact and np.allclose(w1, w2, atol=1e-7) and len(p1) == len(p2):
        if not (kind in ("cvar", "cdar") and m == "efficient_risk"):
            ctx.check(all((x is None) == (y is None) and (x is None or x == y or abs(x - y) <= 1e-3 * max(0.01, abs(x)) + 1e-4) for x, y in zip(p1, p2)),
                      "perm-report", "%s: reports %r, permuted %r" % (m, p1, p2))
    ctx.sig(kind, m, P.n, len(W.rows), bool(P.sec), len(W.objs), P.mform, W.neutral)


def ef(ctx):
    twin(ctx, "ef")


def hist(ctx):
    twin(ctx, str(ctx.rng.choice(["semi", "cvar", "cdar"])))


def cla(ctx):
    from pypfopt import CLA

    rng = ctx.rng
    n = int(rng.integers(2, 9))
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "int", "lookalike"])))
    S, _ = gen.covariance(rng, n, str(rng.choice(["factor", "wishart"])))
    mu = rng.permutation(np.sort(rng.normal(0.08, 0.1, n)) + 2e-3 * np.arange(n))
    mu[int(rng.integers(n))] = mu.max() + 0.05
    a = gen.anchor(rng, n)
    lb = np.where(rng.random(n) < 0.6, 0.0, np.maximum(0, a - 0.2))
    ub = np.minimum(1.0, a + rng.uniform(0.1, 0.6, n))
    t = T(rng, tk)
    same_b = rng.random() < 0.4
    mk = lambda mu, S, names, lb, ub: CLA(pd.Series(mu, index=names), pd.DataFrame(S, index=names, columns=names),
                                          weight_bounds=(0, 1) if same_b else (lb, ub) if n > 2 else list(zip(lb, ub)))
    o1, o2 = mk(mu, S, tk, lb, ub), mk(t.vec(mu), t.mat(S), t.names, t.vec(lb), t.vec(ub))
    m = str(rng.choice(["min_volatility", "max_sharpe", "frontier"]))
    if m == "max_sharpe" and float(mu @ a) <= 0.005 and not same_b:
        m = "min_volatility"
    if m == "frontier":
        F1, F2 = o1.efficient_frontier(points=30), o2.efficient_frontier(points=30)
        # the same curve (points may be distributed differently between coinciding turning points)
        g1, g2 = np.array(F1[0]), np.array(F2[0])
        v1, v2 = np.array(F1[1]), np.array(F2[1])
        ctx.check(abs(g1.max() - g2.max()) < 1e-7 and abs(g1.min() - g2.min()) < 1e-6 and abs(v1.min() - v2.min()) < 1e-6, "cla-curve",
                  "frontier spans [%.9g, %.9g], permuted [%.9g, %.9g]" % (g1.min(), g1.max(), g2.min(), g2.max()))
        if len(g1) == len(g2) and min(-np.diff(g1).max(), -np.diff(g2).max()) > 1e-9:
            ctx.close(v2, v1, "cla-curve", rtol=1e-5, atol=1e-7, msg="frontier volatilities")
            ctx.close(g2, g1, "cla-curve", rtol=1e-5, atol=1e-7, msg="frontier returns")
    else:
        r1, r2 = getattr(o1, m)(), getattr(o2, m)()
        ctx.check(set(r2) == set(t.names), "perm-labels", list(r2))
        w1 = np.array([r1[x] for x in tk])
        w2 = t.back(np.array([r2[x] for x in t.names]))
        ctx.close(w2, w1, "cla-weights", rtol=0, atol=1e-5, msg=m, mu=mu, cov=S)
    ctx.sig("cla", m, n, same_b)


# ------------------------------------------------------------------ Black-Litterman


def bl(ctx):
    from pypfopt import BlackLittermanModel, black_litterman

    rng = ctx.rng
    n = int(rng.integers(2, 8))
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "int", "lookalike"])))
    S = gen.covariance(rng, n, str(rng.choice(["factor", "wishart"])))[0]
    t = T(rng, tk)
    caps = {x: float(c) for x, c in zip(tk, rng.uniform(1, 100, n))}
    caps = {k: caps[k] for k in [tk[int(i)] for i in rng.permutation(n)]}
    pi = str(rng.choice(["market", "equal", "series", "none", "array"]))
    prior = rng.normal(0.05, 0.05, n)
    K = int(rng.integers(1, min(n, 3) + 1))
    vm = str(rng.choice(["views", "vseries", "PQ"]))
    who = [tk[int(i)] for i in rng.permutation(n)[:K]]
    views = {x: float(v) for x, v in zip(who, rng.normal(0.05, 0.1, K))}
    Pm = rng.normal(0, 1, (K, n)) * (rng.random((K, n)) < 0.7)
    Pm[:, 0] += 0.5
    Q = rng.normal(0.03, 0.05, K)
    om = str(rng.choice(["default", "given", "idzorek"]))
    omega = np.diag(rng.uniform(0.001, 0.05, K))
    conf = rng.uniform(0.05, 0.95, K)
    vp = rng.permutation(K)  # the views may come in another order as well
    tau = float(rng.choice([0.05, 0.3]))
    rf = float(rng.choice([0.0, 0.02]))

    def make(image):
        names = t.names if image else tk
        C = pd.DataFrame(t.mat(S) if image else S, index=names, columns=names)
        kw = dict(tau=tau)
        if pi == "market":
            mc = t.dict(caps) if image else caps
            kw.update(pi="market", market_caps=mc if rng.random() < 0.6 else pd.Series(mc), risk_aversion=2.5, risk_free_rate=rf)
        elif pi == "equal":
            kw["pi"] = "equal"
        elif pi in ("series", "array"):
            x = t.vec(prior) if image else prior
            kw["pi"] = pd.Series(x, index=names) if pi == "series" else x
        vo = vp if image else np.arange(K)
        if vm == "PQ":
            kw.update(P=(Pm[:, t.perm] if image else Pm)[vo], Q=Q[vo])
        else:
            items = list(views.items())
            v = {(t.map[items[int(i)][0]] if image else items[int(i)][0]): items[int(i)][1] for i in vo}
            kw["absolute_views"] = v if vm == "views" else pd.Series(v)
        if om == "given":
            kw["omega"] = omega[np.ix_(vo, vo)]
        elif om == "idzorek":
            kw.update(omega="idzorek", view_confidences=conf[vo])
        return BlackLittermanModel(C, **kw), names

    o1, _ = make(False)
    o2, names = make(True)
    msg = "pi=%s views=%s omega=%s" % (pi, vm, om)
    r1, r2 = o1.bl_returns(), o2.bl_returns()
    ctx.check(list(r2.index) == names, "bl-labels", "%s: %r for %r" % (msg, list(r2.index)[:6], names[:6]))
    ctx.close(np.asarray(r2), t.vec(r1), "bl-values", rtol=1e-6, atol=1e-8, msg="posterior returns " + msg)
    c1, c2 = o1.bl_cov(), o2.bl_cov()
    ctx.check(list(c2.index) == names and list(c2.columns) == names, "bl-labels", msg)
    ctx.close(c2.to_numpy(), t.mat(c1), "bl-values", rtol=1e-6, atol=1e-9, msg="posterior covariance " + msg)
    w1, w2 = o1.bl_weights(2.0), o2.bl_weights(2.0)
    ctx.check(list(w2) == names, "bl-labels", msg)
    raw = np.linalg.solve(2.0 * S, np.asarray(r1))
    if abs(raw.sum()) > 1e-3 * np.abs(raw).sum():
        a, b = np.array(list(w1.values())), t.back(np.array(list(w2.values())))
        ctx.close(b, a, "bl-values", rtol=1e-4, atol=1e-6 * max(1, np.abs(a).max()), msg="implied weights " + msg)
    if pi == "market":
        C2 = pd.DataFrame(t.mat(S), index=names, columns=names)
        p = black_litterman.market_implied_prior_returns(t.dict(caps), 2.5, C2, risk_free_rate=rf)
        ctx.check(list(p.index) == names, "bl-labels", "prior")
        want = 2.5 * S @ (np.array([caps[x] for x in tk]) / sum(caps.values())) + rf
        ctx.close(p[names].to_numpy() if len(set(map(str, names))) else p, t.vec(want), "bl-values", rtol=1e-9, atol=1e-12, msg="market prior")
    ctx.sig("bl", pi, vm, om, n, K, type(names[0]).__name__)


# ------------------------------------------------------------------ pure renaming: bit-identical numbers under other names


def rename(ctx):
    import pypfopt
    from pypfopt import plotting  # noqa: F401
    import pypfopt.expected_returns as er
    import pypfopt.risk_models as rm
    from pypfopt.discrete_allocation import DiscreteAllocation, get_latest_prices

    rng = ctx.rng
    n = int(rng.integers(2, 9))
    tk, _ = gen.tickers(rng, n, "random")
    new = relabel(rng, tk, True)
    prices, _ = gen.price_panel(rng, n, 50, tk)
    S = gen.covariance(rng, n, str(rng.choice(["factor", "wishart"])))[0]
    mu = rng.permutation(np.sort(rng.normal(0.08, 0.1, n)) + 2e-3 * np.arange(n))
    mu[int(rng.integers(n))] = 0.3
    w = rng.dirichlet(np.ones(n))
    if rng.random() < 0.4:
        w = rng.normal(1 / n, 0.3, n)
        w[0] = abs(w[0]) + 0.1
    mapper = {x: str(rng.choice(["s", "t"])) for x in tk}
    what = str(rng.choice(["hrp", "hrpcov", "greedy", "lp", "ef", "sharpe", "sector", "cvar", "cla", "mcd", "latest", "perf", "semicov", "fix", "bl", "cdar"]))
    if what in ("greedy", "lp"):
        w = np.where(np.abs(w) < 5e-3, 5e-3, w)
        w = w / w.sum() if np.all(w > 0) else w
    bad = S.copy()
    bad[0, 1] = bad[1, 0] = 1.3 * np.sqrt(S[0, 0] * S[1, 1])
    link = str(rng.choice(["single", "average", "complete", "ward"]))
    reinv = bool(rng.random() < 0.4)

    def go(names):
        pr = prices.copy()
        pr.columns = names
        C = pd.DataFrame(S, index=names, columns=names)
        m = pd.Series(mu, index=names)
        d = dict(zip(names, w.tolist()))
        E = pypfopt.EfficientFrontier
        if what == "hrp":
            o = pypfopt.HRPOpt(pr.pct_change().dropna())
            return o.optimize(linkage_method=link)
        if what == "hrpcov":
            return pypfopt.HRPOpt(cov_matrix=C).optimize(linkage_method=link)
        if what in ("greedy", "lp"):
            sh = any(x < 0 for x in w)
            o = DiscreteAllocation(d, pr.iloc[-1], total_portfolio_value=20000, short_ratio=0.4 if sh else None)
            return (o.greedy_portfolio if what == "greedy" else o.lp_portfolio)(reinvest=reinv)
        if what == "ef":
            return E(m, C, solver="CLARABEL").max_quadratic_utility(2)
        if what == "sharpe":
            return E(m, C, weight_bounds=(-1, 1), solver="CLARABEL").max_sharpe()
        if what == "sector":
            o = E(m, C, solver="CLARABEL")
            o.add_sector_constraints({nn: mapper[t0] for nn, t0 in zip(names, tk)}, {"s": 0.0}, {"s": 0.7, "t": 0.8} if len(set(mapper.values())) == 2 else {})
            return o.min_volatility()
        if what == "cvar":
            return pypfopt.EfficientCVaR(m, pr.pct_change().dropna(), solver="CLARABEL").min_cvar()
        if what == "cdar":
            return pypfopt.EfficientCDaR(m, pr.pct_change().dropna(), solver="CLARABEL").min_cdar()
        if what == "cla":
            return pypfopt.CLA(m, C).max_sharpe()
        if what == "mcd":
            return rm.min_cov_determinant(pr, random_state=5)
        if what == "latest":
            return get_latest_prices(pr)
        if what == "perf":
            return pypfopt.base_optimizer.portfolio_performance(d, m, C, risk_free_rate=0.01)
        if what == "semicov":
            return rm.semicovariance(pr)
        if what == "fix":
            return rm.fix_nonpositive_semidefinite(pd.DataFrame(bad, index=names, columns=names))
        o = pypfopt.BlackLittermanModel(C, pi=m, absolute_views={names[0]: 0.1, names[-1]: -0.02})
        return o.bl_returns()

    a, ea = quiet(lambda: go(list(tk)))
    b, eb = quiet(lambda: go(list(new)))
    if not ctx.check((ea is None) == (eb is None), "rename-outcome", "%s: %r, renamed: %r" % (what, ea, eb), names=new):
        return
    if ea is not None:
        raise Skip("refused: %s" % ea)
    back = dict(zip(new, tk))
    flat = lambda r, f: {f(k): v for k, v in r.items()} if isinstance(r, dict) else r
    I = lambda x: x
    B = lambda x: back.get(x, x)
    if isinstance(a, tuple) and isinstance(a[0], dict):
        ctx.check(flat(a[0], I) == flat(b[0], B), "rename-values", "%s: %r, renamed %r" % (what, a[0], b[0]), names=new)
        ctx.close(b[1], a[1], "rename-values", rtol=1e-9, atol=1e-6)
    elif isinstance(a, dict):
        fa, fb = flat(a, I), flat(b, B)
        ctx.check(list(fa) == list(fb) if not what.startswith("hrp") else set(fa) == set(fb), "rename-labels", "%s: %r, renamed %r" % (what, list(fa), list(fb)), names=new)
        if set(fa) == set(fb):
            ctx.close([fb[k] for k in fa], list(fa.values()), "rename-values", rtol=1e-6, atol=1e-7, msg=what, names=new)
    elif isinstance(a, pd.DataFrame):
        ctx.check(list(b.columns) == new and list(b.index) == new, "rename-labels", what)
        ctx.close(b.to_numpy(), a.to_numpy(), "rename-values", rtol=1e-9, atol=1e-12, msg=what)
    elif isinstance(a, pd.Series):
        ctx.check(list(b.index) == new, "rename-labels", what)
        ctx.close(b.to_numpy(), a.to_numpy(), "rename-values", rtol=1e-9, atol=1e-12, msg=what)
    else:
        ctx.close(np.array(b, float), np.array(a, float), "rename-values", rtol=1e-9, atol=1e-12, msg=what)
    ctx.sig("rename", what, n, type(new[0]).__name__)
