"""S01 Re-solving with a new target: histories on one object, each step against a fresh object."""

from pypfopt import objective_functions

from .risklib import *

BUDGET = {"quick": {"ef": 800, "semi": 186, "cvar": 240, "cdar": 133, "ef_default": 160, "param": 260},
          "thorough": {"ef": 16000, "semi": 3700, "cvar": 4800, "cdar": 2700, "ef_default": 3200, "param": 5200}}
RULE = ("Each case draws a problem and a history of 4-9 calls of one parametrised optimisation on one object: attainable, "
        "unattainable and invalid targets, market-neutrality switches, injected solver failures and reads in between. After "
        "every successful call the objective of the returned weights is compared with that of a fresh object given the same "
        "target, and refusals with the fresh object's; the stored weights must be those of the last success. Parameter cases put the "
        "caller's own named parameters into constraints and objective terms, update them by name between solves and compare with "
        "a fresh object written with plain numbers; unknown and ambiguous names must be refused without effect.")
MIN = {"chk:param-objective": 200, "chk:param-refused": 100, "chk:resolve-objective": 200, "chk:switch-refused": 50, "chk:still-refused": 30}
ASSUMES = ["the solver is deterministic up to its tolerance"]


class Bench:
    """One parametrised optimisation: target draws and the objective it stands for."""

    def __init__(self, ctx, kind):
        rng = self.rng = ctx.rng
        self.kind = kind
        if kind in ("ef", "ef_default"):
            self.method = str(rng.choice(["efficient_risk", "efficient_return", "max_quadratic_utility"]))
            neutral = rng.random() < 0.3
            nobj = int(rng.choice([0, 1], p=[0.75, 0.25]))
            self.daily = kind == "ef" and rng.random() < 0.25  # returns and risks that are not annualised
            if self.daily:
                nobj = 0
            P = gen.Problem(rng, neutral=neutral, nobj=nobj, daily=self.daily, solver="CLARABEL" if kind == "ef" else None,
                            cov_kind=str(rng.choice(["factor", "wishart", "block", "equicorr"])))
            self.make = P.ef
            self.risk = lambda w: ref.vol(w, P.S)
            x = cp.Variable(P.n)
            L = ref.psd_root(P.S)
            e, cons = cp.norm(L @ x, 2), []
            self.freq = 252
        else:
            self.daily = False
            ms = ["efficient_risk", "efficient_return"] + (["max_quadratic_utility"] if kind == "semi" else [])
            self.method = str(rng.choice(ms))
            Q = Panel(ctx, kind)
            P = Q.P
            self.make = Q.make
            self.make()  # fixes defaults
            self.risk = Q.risk
            x = cp.Variable(P.n)
            e, cons = Q.expr(x)
            self.freq = Q.freq
        self.P = P
        rc = P.ref_cons(x) + cons
        top = ref_solve(P, -P.mu @ x, P.ref_cons(x), x)
        low = ref_solve(P, 10 * e, rc, x)
        if top is None or low is None:
            raise Skip("no reference extremes")
        self.top, self.low = float(top @ P.mu), float(self.risk(low))
        self.bottom = float(low @ P.mu)
        self.va = float(self.risk(P.a))
        self.neutral = P.neutral

    def draw(self, good):
        """A target (attainable by a margin, or clearly not)."""
        rng = self.rng
        km, kv = (1 / 252, 1 / np.sqrt(252)) if self.daily else (1.0, 1.0)
        if self.method == "max_quadratic_utility":
            if good:
                return float(rng.choice([0.1, 0.5, 1, 2, 5, 15])) if rng.random() < 0.7 else float(rng.uniform(0.1, 20))
            return float(rng.choice([0, -1, -0.5]))
        if self.method == "efficient_return":
            pos = self.kind in ("semi", "cdar")
            if good:
                lo = max(0.001, self.bottom - 0.05) if pos else self.bottom - 0.05 * km
                hi = self.top - max(1e-3 * km, 0.02 * abs(self.top - self.bottom))
                if self.kind == "semi":
                    hi = min(hi, float(np.abs(self.P.mu).max()) - 1e-6)
                if hi <= lo:
                    return None
                return float(rng.uniform(lo, hi))
            return float(self.top + km * rng.choice([0.05, 0.5, 3.0]))
        span = max(self.va - self.low, 0.1 * abs(self.low), 5e-3 * kv)
        if good:
            t = self.low + span * float(rng.choice([0.1, 0.4, 1.0, 2.0, 8.0])) + 1e-3 * kv
            return float(t) if t > 2e-3 * kv else None
        if self.low > 0.02 * kv and not self.neutral:
            return float(self.low * rng.choice([0.3, 0.8]))
        return None

    def near(self, t):
        """A target close to the previous one (a fine grid), attainable as well."""
        rng = self.rng
        u = t * (1 + float(rng.choice([1e-2, 3e-3, 1e-3, -1e-3, -3e-3, -1e-2])))
        if self.method == "efficient_return":
            hi = self.top - max(1e-3 / (252 if self.daily else 1), 0.02 * abs(self.top - self.bottom))
            if self.kind == "semi":
                hi = min(hi, float(np.abs(self.P.mu).max()) - 1e-6)
            return u if u <= hi else None
        if self.method == "efficient_risk":
            return u if u >= self.low + 0.1 * max(self.va - self.low, 0.1 * abs(self.low), 5e-3 / (16 if self.daily else 1)) else None
        return u

    def invalid(self):
        rng = self.rng
        if self.method == "max_quadratic_utility":
            return float(rng.choice([0, -1.0]))
        if self.method == "efficient_return":
            return self.top + 5.0
        return -0.1

    def f(self, w, t):
        P = self.P
        if self.method == "max_quadratic_utility":
            return -float(w @ P.mu) + 0.5 * t * self.risk(w) ** 2 + P.extra(w)
        if self.method == "efficient_return":
            if self.kind in ("ef", "ef_default"):
                return self.risk(w) ** 2 + P.extra(w)
            return self.risk(w) + P.extra(w)
        return -float(w @ P.mu) + P.extra(w)

    def tol(self, v, status):
        k = 1 if status else 200
        rel = 1e-4 if self.kind != "ef_default" else 3e-2
        out = rel * abs(v) * k
        if self.daily:  # absolute tolerance of the solver on quantities of 1e-4
            return out + (5e-7 if self.method == "efficient_risk" else 5e-8) * k
        if self.method == "max_quadratic_utility":
            return out + (2e-5 * self.freq / 252 + 2e-6) * k + (rel if self.kind == "ef_default" else 0) * np.abs(self.P.mu).max()
        if self.method == "efficient_risk":
            return out + (5e-5 if self.kind != "ef_default" else 3e-2) * np.abs(self.P.mu).max() * k
        if self.kind == "semi":
            return out + np.sqrt(v**2 + 4e-8 * self.freq * k) - abs(v)
        if self.kind in ("cvar", "cdar"):
            return out + 4e-6 * k
        return out + (2e-6 if self.kind == "ef" else 2e-2) * float(np.diag(self.P.S).max()) * k

    def call(self, o, t, neutral=None):
        neutral = self.neutral if neutral is None else neutral
        kw = {}
        if neutral or self.rng.random() < 0.4:
            kw["market_neutral"] = neutral
        if self.method == "max_quadratic_utility" and t == 1 and self.rng.random() < 0.5:
            return lambda: o.max_quadratic_utility(**kw)
        return lambda: getattr(o, self.method)(t, **kw)


class Term:
    """One of the caller's terms holding a named parameter; `values` draws keep the anchor feasible."""

    def __init__(self, B, name, form):
        rng, P = B.rng, B.P
        self.B, self.name, self.form, self.kw = B, name, form, {}
        if form == "basket":
            self.A = np.abs(rng.normal(size=P.n)) * rng.choice([0, 1], size=P.n, p=[0.3, 0.7])
        elif form == "floor":
            self.A = rng.normal(size=P.n)
        self.kw = dict(nonneg=True) if form in ("l2", "l1") else {}
        self.v = self.draw()

    def draw(self):
        rng, a = self.B.rng, self.B.P.a
        slack = float(rng.choice([0.01, 0.05, 0.3]))
        if self.form == "basket":
            return float(self.A @ a) + slack
        if self.form == "floor":
            return float(self.A @ a) - slack
        if self.form == "caps":
            return a + slack * rng.uniform(0.2, 1, size=len(a))
        return float(rng.choice([0.0, 0.05, 0.3, 2.0]))

    def add(self, o, value):
        """value: a cvxpy parameter (as the caller writes it) or a plain number (the fresh object)."""
        if self.form == "basket":
            o.add_constraint(lambda w: self.A @ w <= value)
        elif self.form == "floor":
            o.add_constraint(lambda w: self.A @ w - value >= 0)
        elif self.form == "caps":
            o.add_constraint(lambda w: w <= value)
        elif self.form == "l2":
            o.add_objective(objective_functions.L2_reg, gamma=value)
        else:
            o.add_objective(lambda w, k: k * cp.norm(w, 1), k=value)

    def param(self):
        shape = {"shape": self.v.shape} if self.form == "caps" else {}
        return cp.Parameter(value=self.v, name=self.name, **shape, **self.kw)

    @property
    def objective(self):
        return self.form in ("l2", "l1")

    def cost(self, w):
        return self.v * float(w @ w) if self.form == "l2" else self.v * float(np.abs(w).sum()) if self.form == "l1" else 0.0

    def viol(self, w):
        if self.form == "basket":
            return float(self.A @ w) - self.v
        if self.form == "floor":
            return self.v - float(self.A @ w)
        if self.form == "caps":
            return float(np.max(w - self.v))
        return 0.0


def run_param(ctx):
    rng = ctx.rng
    B = Bench(ctx, str(rng.choice(["ef", "ef", "semi", "cvar", "cdar"])))
    P = B.P
    forms = ["basket", "floor", "caps"] + ([] if B.daily or (B.kind == "semi" and B.method == "efficient_return") else ["l2", "l1"])
    names = [str(x) for x in rng.permutation(["gamma", "cap", "limit", "p1", "Fees 2", "target", "risk"])]
    terms = [Term(B, names[i], str(rng.choice(forms))) for i in range(int(rng.integers(1, 4)))]
    o = B.make()
    pars = {}
    for t in terms:
        pars[t.name] = t.param()
        t.add(o, pars[t.name])
    twin = None
    if rng.random() < 0.2:  # two different parameters of one name
        twin = names[6]
        for _ in range(2):
            q = Term(B, twin, "floor")
            q.v = float(q.A @ P.a) - 50.0  # never binds
            q.add(o, q.param())
    mu_a = float(P.a @ P.mu)
    hist, solved = [], False
    ctx.note(method=B.method, kind=B.kind, problem=P.describe(), terms=[(t.name, t.form) for t in terms], history=hist)
    pos = B.kind in ("semi", "cdar") and B.method == "efficient_return"
    if pos and mu_a < 0.01:
        raise Skip("return targets must be positive here")

    def target():
        if B.method == "max_quadratic_utility":
            return float(rng.choice([0.1, 0.5, 1, 2, 5]))
        if B.method == "efficient_return":
            t = mu_a - float(rng.uniform(0.002, 0.05)) / (252 if B.daily else 1)
            t = max(t, 1e-3 if not B.daily else 1e-6) if pos else t
            if B.kind == "semi" and t >= np.abs(P.mu).max():
                raise Skip("target above the documented range")
            return t
        return float(B.va * rng.uniform(1.05, 2)) + 1e-4

    for step in range(int(rng.integers(4, 10))):
        op = str(rng.choice(["solve", "update", "unknown"], p=[0.5, 0.4, 0.1])) if step else "update"
        before = None if o.weights is None else np.array(o.weights)
        if op == "update":
            t = terms[int(rng.integers(len(terms)))]
            if t.objective and not solved:
                continue  # an objective term joins the problem when it is solved
            ctx.check(o.is_parameter_defined(t.name) is True, "param-defined", "parameter %r is not reported as defined" % t.name)
            t.v = t.draw()
            o.update_parameter_value(t.name, t.v)
            hist.append((op, t.name, t.v))
            ctx.check((before is None and o.weights is None) or (before is not None and np.array_equal(before, o.weights)),
                      "param-keeps-weights", "updating a parameter changed the weights")
            ctx.check(all(np.array_equal(pars[q.name].value, q.v) for q in terms), "param-others",
                      "after updating %r the parameters are %r" % (t.name, {k: v.value for k, v in pars.items()}))
            continue
        if op == "unknown":
            name = twin if twin and rng.random() < 0.7 else str(rng.choice(["nothing", "GAMMA", "ca", ""]))
            if name != twin:
                ctx.check(o.is_parameter_defined(name) is False, "param-defined", "parameter %r is reported as defined" % name)
            _, err = attempt(lambda: o.update_parameter_value(name, 1.0))
            hist.append((op, name, err))
            ctx.check(err is not None, "param-refused", "an update of %s parameter %r was accepted" % ("the ambiguous" if name == twin else "an unknown", name))
            ctx.check(all(np.array_equal(pars[q.name].value, q.v) for q in terms), "param-others",
                      "a refused update changed the parameters to %r" % ({k: v.value for k, v in pars.items()},))
            continue
        t = target()
        with hooks.unmonitored():
            fresh = B.make()
            for q in terms:
                q.add(fresh, q.v)
            r0, err0 = attempt(B.call(fresh, t))
        s0 = ST.status
        r, err = attempt(B.call(o, t))
        s1 = ST.status
        hist.append((op, t, err0, err))
        solved = solved or err is None
        if err is not None and not solved:
            raise Skip("the first solve was refused: %s" % err)
        if err0 is not None or err is not None:
            clear = s0 == "optimal" and err is not None and not (err.startswith("opt:user_limit") or err == "solver" or "inaccurate" in err)
            ctx.check(not clear, "param-solves", "%s(%r): a fresh object solves it, the one with parameters says %s" % (B.method, t, err),
                      problem=P.describe(), history=list(hist))
            continue
        w0, w = P.port(r0), P.port(r)
        v0, v = (B.f(x, t) + sum(q.cost(x) for q in terms) for x in (w0, w))
        good = s0 == "optimal" and s1 == "optimal"
        ctx.event("compare", step=step, target=t, reused=v, fresh=v0)
        ctx.check(abs(v - v0) <= B.tol(v0, good), "param-objective",
                  "step %d %s(%r): objective %.9g with parameters, %.9g with plain numbers" % (step, B.method, t, v, v0),
                  problem=P.describe(), history=list(hist), terms=[(q.name, q.form, q.v) for q in terms], reused=w, fresh=w0)
        bad = max(q.viol(w) for q in terms)
        ctx.check(bad <= 2e-5 * max(1.0, np.abs(w).sum()) * (1 if good else 100), "param-constraint",
                  "a constraint with an updated parameter is violated by %.3g" % bad, history=list(hist))
    ctx.sig("param", B.kind, B.method, ",".join(sorted(t.form for t in terms)), ",".join(h[0][0] for h in hist))
    if not any(h[0] == "solve" for h in hist):
        raise Skip("nothing solved")


def run_case(ctx):
    if ctx.kind == "param":
        return run_param(ctx)
    rng = ctx.rng
    B = Bench(ctx, ctx.kind)
    P = B.P
    o = B.make()
    steps = int(rng.integers(4, 10))
    hist, last, parametrised = [], None, False
    ctx.note(method=B.method, problem=P.describe(), history=hist, kind=B.kind)
    nsucc = 0
    for i in range(steps):
        op = str(rng.choice(["good", "near", "bad", "invalid", "switch", "fault", "read", "same"],
                            p=[0.42, 0.12, 0.13, 0.07, 0.08, 0.06, 0.06, 0.06]))
        if op in ("same", "near") and last is None:
            op = "good"
        if op == "switch" and not parametrised:
            op = "good"
        if op == "read":
            if o.weights is not None:
                attempt(lambda: o.portfolio_performance())
                o.clean_weights()
            continue
        if op == "switch":
            t = B.draw(True)
            if t is None:
                continue
            before = None if o.weights is None else np.array(o.weights)
            r, err = attempt(B.call(o, t, neutral=not B.neutral))
            hist.append((op, t, err))
            ctx.check(err is not None, "switch-refused", "market_neutral=%r accepted on an object solved with %r" % (not B.neutral, B.neutral),
                      problem=P.describe())
            ctx.check((before is None and o.weights is None) or (before is not None and np.array_equal(before, o.weights)),
                      "switch-keeps-weights", "a refused switch changed the weights")
            continue
        if op == "fault":
            t = B.draw(True)
            if t is None:
                continue

            def fail(problem, a, k):
                raise cp.SolverError("injected")

            before = None if o.weights is None else np.array(o.weights)
            ST.fault = fail
            try:
                r, err = attempt(B.call(o, t))
            finally:
                ST.fault = None
            hist.append((op, t, err))
            parametrised = True
            ctx.check(err is not None, "fault-raises", "a failing solver produced a portfolio", problem=P.describe())
            ctx.check((before is None and o.weights is None) or (before is not None and np.array_equal(before, o.weights)),
                      "fault-keeps-weights", "a failed solve changed the weights")
            continue
        t = (last[0] if op == "same" else B.near(last[0]) if op == "near" else B.invalid() if op == "invalid"
             else B.draw(op == "good"))
        if t is None:
            continue
        before = None if o.weights is None else np.array(o.weights)
        fresh = B.make()
        r0, err0 = attempt(B.call(fresh, t))
        s0 = ST.status
        r, err = attempt(B.call(o, t))
        s1 = ST.status
        hist.append((op, t, err0, err))
        if op in ("bad", "invalid"):
            ctx.check(err is not None, "still-refused", "%s(%r): fresh object says %s, the reused one returned a portfolio" % (B.method, t, err0),
                      problem=P.describe(), history=list(hist))
            ctx.check((before is None and o.weights is None) or (before is not None and np.array_equal(before, o.weights)),
                      "refusal-keeps-weights", "a refused call changed the weights", history=list(hist))
            if err is not None and op == "bad" and err.startswith("opt"):
                parametrised = True
            continue
        if err0 is not None:
            ctx.count("fresh_refused")
            if err is None:
                parametrised = True
                last = (t, P.port(r))
            continue
        if err is not None:
            # numerical trouble of one canonicalisation is not the claim: ask the fresh one twice
            ok = "optimal" == s0
            ctx.check(not (ok and not (err.startswith("opt:user_limit") or err == "solver" or "inaccurate" in err)), "resolve-refused",
                      "%s(%r): a fresh object solves it, the reused one says %s" % (B.method, t, err),
                      problem=P.describe(), history=list(hist))
            continue
        parametrised = True
        w0, w = P.port(r0), P.port(r)
        v0, v = B.f(w0, t), B.f(w, t)
        good = s0 == "optimal" and s1 == "optimal"
        ctx.event("compare", step=i, target=t, reused=v, fresh=v0)
        ctx.check(abs(v - v0) <= B.tol(v0, good), "resolve-objective",
                  "step %d %s(%r): objective %.9g on the reused object, %.9g on a fresh one" % (i, B.method, t, v, v0),
                  problem=P.describe(), history=list(hist), reused=w, fresh=w0)
        g = max(1.0, np.abs(w).sum()) * (1 if good else 100) * (100 if B.kind == "ef_default" else 1) * (0.1 if B.daily else 1)
        if B.method == "efficient_return":
            ctx.check(float(w @ P.mu) >= t - 2e-5 * g, "resolve-target", "target %r, return %r" % (t, float(w @ P.mu)), history=list(hist))
        elif B.method == "efficient_risk":
            ctx.check(B.risk(w) <= t + 2e-5 * g + (1e-6 / t if B.kind in ("semi",) else 0), "resolve-target",
                      "target %r, risk %r" % (t, B.risk(w)), history=list(hist))
        ctx.check(np.allclose(o.weights, w, rtol=0, atol=1e-12), "resolve-stored", "stored weights are not the returned ones")
        rep0, rep = fresh.portfolio_performance(), o.portfolio_performance()
        if rep[0] is not None:
            ctx.close(rep[0], float(w @ P.mu), "resolve-report", rtol=1e-8, atol=1e-10 * g)
        if B.kind in ("ef", "ef_default", "semi"):
            ctx.close(rep[1] ** 2, B.risk(w) ** 2, "resolve-report-risk", rtol=1e-6, atol=1e-9)
        elif good and B.method == "efficient_return":
            ctx.close(rep[1], rep0[1], "resolve-report-risk", rtol=1e-3, atol=2e-5)
        last = (t, w)
        nsucc += 1
    ctx.sig(B.kind, B.method, B.neutral, P.bkind, ",".join(h[0] for h in hist))
    if nsucc == 0 and not ctx.counts["oracle_evaluations"]:
        raise Skip("no successful step")
