"""Shared workload of the semivariance, CVaR and CDaR properties."""

from .common import *

SPEC = {
    "semi": dict(minimise="min_semivariance", risk_attr="semideviation"),
    "cvar": dict(minimise="min_cvar"),
    "cdar": dict(minimise="min_cdar"),
}


class Panel:
    """One historic-risk problem: data, optimiser factory, numeric measures, references."""

    def __init__(self, ctx, kind, neutral=None, nobj=0, hi=6, ncons=None, no_mu=False, solver="CLARABEL", nan=None):
        rng = ctx.rng
        self.ctx, self.kind, self.rng = ctx, kind, rng
        neutral = (rng.random() < 0.25) if neutral is None else neutral
        # confidence levels whose tail holds at least two observations
        T = int(rng.choice([20, 27, 40, 61, 90, 260], p=[0.15, 0.25, 0.3, 0.2, 0.08, 0.02]))
        self.beta = float(rng.choice([0.95, 0.9, 0.8, 0.75, 0.5, 0.2, 0.1, 0.04, 0.01, 0.0], p=[0.35, 0.2, 0.15, 0.1, 0.06, 0.04, 0.03, 0.03, 0.02, 0.02]))
        if T * (1 - self.beta) < 1.5:
            self.beta = 0.9
        self.benchmark = float(rng.choice([0, 0.000079, 0.0005, -0.001]))
        self.freq = int(rng.choice([252, 252, 52, 12]))
        P = gen.Problem(rng, neutral=neutral, returns=True, T=T, hi=hi, solver=solver, nobj=nobj, ncons=ncons, no_mu=no_mu)
        self.P, self.neutral = P, neutral
        self.R_arg = P.R
        self.nan = (rng.random() < 0.15) if nan is None else nan
        if self.nan:
            D = P.R.copy()
            rows = rng.choice(len(D), 2, replace=False)
            for t in rows:
                D.iloc[t, int(rng.integers(P.n))] = np.nan
            self.R_arg = D
        self.R = self.R_arg.dropna().to_numpy(float)
        form = str(rng.choice(["frame", "array"], p=[0.75, 0.25]))
        if form == "array":
            self.R_arg = self.R_arg.to_numpy()
        self.form = form
        # expected returns need not be the sample mean
        if not no_mu and rng.random() < 0.5:
            mu = rng.normal(0.08, 0.15, P.n)
            P.mu = mu
            P.arg_mu = pd.Series(mu, index=P.tk) if P.mform == "series" else (list(mu) if P.mform == "list" else np.array(mu))
            if P.mform == "column":
                P.mform = "array"
        elif P.mform == "column":
            P.arg_mu, P.mform = np.array(P.mu), "array"
        self.defaults = rng.random() < 0.3
        if self.defaults:
            self.beta, self.benchmark, self.freq = 0.95, 0.000079, 252

    def make(self):
        from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance

        P = self.P
        if self.kind == "semi":
            kw = {} if self.defaults else dict(benchmark=self.benchmark, frequency=self.freq)
            if self.defaults:
                import inspect

                sig = inspect.signature(EfficientSemivariance.__init__).parameters
                self.benchmark, self.freq = sig["benchmark"].default, sig["frequency"].default
            return P.make(EfficientSemivariance, P.arg_mu, self.R_arg, **kw)
        cls = EfficientCVaR if self.kind == "cvar" else EfficientCDaR
        kw = {} if self.defaults else dict(beta=self.beta)
        return P.make(cls, P.arg_mu, self.R_arg, **kw)

    def risk(self, w):
        if self.kind == "semi":
            return ref.semidev(w, self.R, self.benchmark, self.freq)
        return (ref.cvar if self.kind == "cvar" else ref.cdar)(w, self.R, self.beta)

    def expr(self, x):
        """(risk expression in convex form, extra constraints); risk for semi is the deviation."""
        R = self.R
        if self.kind == "semi":
            return cp.norm(cp.pos(self.benchmark - R @ x), 2) * np.sqrt(self.freq / len(R)), []
        a = cp.Variable()
        k = 1 / (len(R) * (1 - self.beta))
        if self.kind == "cvar":
            return a + k * cp.sum(cp.pos(-(R @ x) - a)), []
        C = np.cumsum(R, axis=0) @ x
        M = cp.Variable(len(R))
        return a + k * cp.sum(cp.pos(M - C - a)), [M >= C, M >= 0, M[1:] >= M[:-1]]

    def describe(self):
        return dict(self.P.describe(), kind=self.kind, T=len(self.R), beta=self.beta, benchmark=self.benchmark,
                    frequency=self.freq, nan=self.nan, returns=self.form, defaults=self.defaults)

    def sig(self):
        P = self.P
        return (self.kind, P.n, P.bkind, self.neutral, len(P.cons), bool(P.sec), self.beta if self.kind != "semi" else self.freq,
                self.nan, self.form, P.mform)


# absolute accuracy of an interior-point solution in units of the risk measure
ABS = {"semi": 2e-5, "cvar": 2e-6, "cdar": 2e-6}


def solve_and_check(ctx, Q, method, nobj=False):
    """Run one method; return (optimiser, weights, target)."""
    rng, P, kind = ctx.rng, Q.P, Q.kind
    x = cp.Variable(P.n)
    kw = dict(market_neutral=True) if Q.neutral else ({} if rng.random() < 0.6 else dict(market_neutral=False))
    t = None
    e, cons = Q.expr(x)
    extra = P.extra
    name = SPEC[kind]["minimise"] if method == "min" else {"ret": "efficient_return", "risk": "efficient_risk",
                                                           "util": "max_quadratic_utility"}[method]
    make = Q.make
    o0 = make()  # fixes the defaults in use
    e, cons = Q.expr(x)
    rc = P.ref_cons(x) + cons
    if method == "min":
        f = lambda w: Q.risk(w) + extra(w)
        rw = ref_solve(P, 100 * (e + P.extra_canon(x)), rc, x)
        call = lambda o: getattr(o, name)(**kw)
    elif method == "ret":
        top = ref_solve(P, -P.mu @ x, P.ref_cons(x), x)
        if top is None:
            raise Skip("no reference extreme")
        hi, ra = float(top @ P.mu), float(P.a @ P.mu)
        t = ra + float(rng.choice([-0.05, -1e-3, 0.3, 0.8])) * max(hi - ra, 0.01)
        t = float(min(t, hi - 1e-4))
        if t < 0 and kind in ("semi", "cdar"):
            raise Skip("documented to need a positive target")
        f = lambda w: Q.risk(w) + extra(w)
        rw = ref_solve(P, 100 * (e + P.extra_canon(x)), rc + [P.mu @ x >= t], x)
        if rw is not None and float(rw @ P.mu) < t - 1e-7:
            rw = None
        call = lambda o: o.efficient_return(t, **kw)
    elif method == "risk":
        low = ref_solve(P, 100 * e, rc, x)
        va = Q.risk(P.a)
        lo = min(va, Q.risk(low)) if low is not None and P.violation(low) < 1e-6 else va
        # from nearly minimal (binding) to generous (not binding)
        t = lo + max(va - lo, 0.05 * abs(va), 2e-3) * float(rng.choice([0.1, 0.5, 1.0, 3.0, 30.0])) + 1e-4
        if t <= 1e-4:
            t = 1e-3
        t = float(t)
        f = lambda w: -float(w @ P.mu) + extra(w)
        rw = ref_solve(P, -P.mu @ x + P.extra_canon(x), rc + [e <= t * (1 - 1e-6)], x)
        if rw is not None and Q.risk(rw) > t * (1 + 1e-6):
            rw = None
        call = lambda o: o.efficient_risk(t, **kw)
    else:
        d = float(rng.choice([0.5, 1, 3, 10]))
        f = lambda w: -float(w @ P.mu) + 0.5 * d * Q.risk(w) ** 2
        rw = ref_solve(P, -P.mu @ x + 0.5 * d * cp.square(e), rc, x)
        call = lambda o: o.max_quadratic_utility(risk_aversion=d, **kw)
        ctx.note(risk_aversion=d)
    ctx.note(method=name, target=t, problem=Q.describe())
    o, r = solve(ctx, P, make, call, what="%s.%s" % (kind, name))
    status, solver = ST.status, ST.solver
    if set(r) != set(P.tk):
        raise Skip("labels (decided by M01)")
    w = P.port(r)
    v = P.violation(w)
    ctx.check(v <= hooks.tol_now() * 5 * max(1.0, np.abs(w).sum()), "feasible-optimum",
              "%s.%s: stated problem violated by %.3g" % (kind, name, v), problem=Q.describe(), w=w)
    if t is not None:
        ok = (float(w @ P.mu) >= t - 1e-5 * max(1, np.abs(w).sum())) if method == "ret" else Q.risk(w) <= (np.sqrt(t**2 + (1e-5 + 4e-8 * Q.freq) * (1 if status == "optimal" else 100)) if kind == "semi" else t) + 1e-5 * max(1, np.abs(w).sum())
        ctx.check(ok, "target-met", "%s.%s: target %.8g, return %.8g, risk %.8g, %s %s" % (kind, name, t, w @ P.mu, Q.risk(w), solver, status),
                  problem=Q.describe(), w=w)
    cands = [rw]
    if method not in ("ret", "risk") or (method == "ret" and P.a @ P.mu >= t) or (method == "risk" and Q.risk(P.a) <= t):
        cands.append(P.a)
        if rw is not None:
            cands.append(0.8 * P.a + 0.2 * rw)
    best, bw = best_of(P, f, cands)
    if np.isfinite(best):
        slack = 1e-4 if status == "optimal" else 1e-2
        tol = slack * abs(best)
        if method == "util":
            tol += 1e-5 * Q.freq / 252 + 1e-6
        elif method == "risk":
            tol += 2e-5 * np.abs(P.mu).max()
        elif kind == "semi":
            # the solver works on the per-period semivariance to an absolute accuracy of ~1e-8
            a2 = 2e-8 * Q.freq * (1 if status == "optimal" else 100)
            tol += np.sqrt(best**2 + a2) - best
        else:
            tol += ABS[kind]
        ctx.info["relgap"] = float((f(w) - best) / tol)
        ctx.event("compare", objective=f(w), reference=best)
        ctx.check(f(w) <= best + tol, "optimal", "%s.%s: objective %.9g but a feasible portfolio has %.9g (%s)" % (
            kind, name, f(w), best, status), problem=Q.describe(), w=w, better=bw, target=t)
    else:
        ctx.count("no_reference")
    ctx.sig(method, *Q.sig())
    return o, w, t, status
