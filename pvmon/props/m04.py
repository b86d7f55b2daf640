"""M04 Targets: honoured by the returned weights, attainable ones accepted, unattainable refused."""

from .common import *

BUDGET = {"quick": {"mv_ret": 1340, "mv_risk": 1340, "semi": 310, "cvar": 410, "cdar": 310, "mv_bad": 820, "risk_bad": 310},
          "thorough": {"mv_ret": 26800, "mv_risk": 26800, "semi": 6200, "cvar": 8200, "cdar": 6200, "mv_bad": 16400, "risk_bad": 6200}}
RULE = ("Each case computes the attainable range of return or risk of a generated problem with reference solves, asks for a "
        "target inside the range (from near the extreme to slack) or clearly outside, and measures return and risk on the "
        "returned weights with textbook formulas.")
MIN = {"chk:target-return": 80, "chk:target-risk": 80, "chk:unattainable-error": 60}
ASSUMES = ["CLARABEL/HiGHS reference solves delimit the attainable range"]


def extremes(P, mu):
    x = cp.Variable(P.n)
    top = ref_solve(P, -mu @ x, P.ref_cons(x), x)
    if top is None or P.violation(top) > 1e-6:
        raise Skip("no reference extreme")
    return top


def risk_expr(P, kind, x, beta, R):
    """cvxpy epigraph of each risk measure, posed independently (support-function form)."""
    if kind == "mv":
        return cp.norm(ref.psd_root(P.S) @ x, 2), []
    if kind == "semi":
        return cp.norm(cp.pos(-(R @ x)), 2) * np.sqrt(P.freq / len(R)), []
    a = cp.Variable()
    if kind == "cvar":
        return a + cp.sum(cp.pos(-(R @ x) - a)) / (len(R) * (1 - beta)), []
    # running maximum of the cumulative sum: M[t] >= M[t-1], M[t] >= C[t], M >= 0 (tight where it matters)
    C = np.cumsum(R, axis=0) @ x
    M = cp.Variable(len(R))
    cons = [M >= C, M >= 0, M[1:] >= M[:-1]]
    return a + cp.sum(cp.pos(M - C - a)) / (len(R) * (1 - beta)), cons


def measure(P, kind, w, beta, R):
    return {"mv": lambda: ref.vol(w, P.S), "semi": lambda: ref.semidev(w, R, 0.0, P.freq), "cvar": lambda: ref.cvar(w, R, beta),
            "cdar": lambda: ref.cdar(w, R, beta)}[kind]()


def optimiser(P, kind, beta):
    from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance

    if kind == "mv":
        return P.ef
    if kind == "semi":
        return lambda: P.make(EfficientSemivariance, P.arg_mu, P.R, frequency=P.freq)
    if kind == "cvar":
        return lambda: P.make(EfficientCVaR, P.arg_mu, P.R, beta=beta)
    return lambda: P.make(EfficientCDaR, P.arg_mu, P.R, beta=beta)


def setup(ctx, kind):
    rng = ctx.rng
    neutral = rng.random() < 0.25
    beta = float(rng.choice([0.95, 0.9, 0.8, 0.5, 0.03], p=[0.3, 0.3, 0.3, 0.06, 0.04]))
    if kind == "mv":
        P = gen.Problem(rng, neutral=neutral, solver=[None, "CLARABEL", "ECOS"][int(rng.choice(3, p=[0.15, 0.7, 0.15]))])
    else:
        P = gen.Problem(rng, neutral=neutral, returns=True, T=int(rng.choice([25, 40, 60])), hi=6, solver="CLARABEL")
    P.freq = int(rng.choice([252, 52, 12, 1])) if kind == "semi" else 252
    R = None if P.R is None else P.R.to_numpy()
    return P, R, beta, neutral


def run_case(ctx):
    k = ctx.kind
    if k == "mv_ret":
        honoured(ctx, "mv", "ret")
    elif k == "mv_risk":
        honoured(ctx, "mv", "risk")
    elif k in ("semi", "cvar", "cdar"):
        honoured(ctx, k, str(ctx.rng.choice(["ret", "risk"])))
    elif k == "mv_bad":
        bad(ctx, "mv")
    else:
        bad(ctx, str(ctx.rng.choice(["semi", "cvar", "cdar"])))


def honoured(ctx, kind, what):
    rng = ctx.rng
    P, R, beta, neutral = setup(ctx, kind)
    make = optimiser(P, kind, beta)
    kw = dict(market_neutral=True) if neutral else {}
    if what == "ret":
        top = extremes(P, P.mu)
        hi = float(top @ P.mu)
        ra = float(P.a @ P.mu)
        span = max(hi - ra, 1e-3)
        t = hi - span * float(rng.choice([1e-3, 0.05, 0.5, 1.0, 1.5])) - 1e-5
        near = span * 1e-3
        if kind in ("semi", "cdar") and t <= 0:
            raise Skip("documented to need a positive target")
        t = float(t)
        ctx.note(kind=kind, target_return=t, max_return=hi, problem=P.describe())
        o, r = solve(ctx, P, make, lambda e: e.efficient_return(t, **kw), key="attainable-refused",
                     what="%s efficient_return(%g), attainable up to %g" % (kind, t, hi))
        if set(r) != set(P.tk):
            raise Skip("labels (decided by M01)")
        w = P.port(r)
        got = float(w @ P.mu)
        tol = hooks.tol_now() * 3 * max(1.0, np.abs(w).sum())
        ctx.event("target", want=t, got=got)
        ctx.check(got >= t - tol, "target-return", "%s: return %.8g below target %.8g" % (kind, got, t), problem=P.describe(), w=w)
        ctx.sig(kind, "ret", "binding" if got < t + 1e-4 else "slack", *P.signature())
        return
    x = cp.Variable(P.n)
    e, cons = risk_expr(P, kind, x, beta, R)
    low = ref_solve(P, e, P.ref_cons(x) + cons, x)
    if low is None or P.violation(low) > 1e-6:
        raise Skip("no reference minimum")
    lo, va = measure(P, kind, low, beta, R), measure(P, kind, P.a, beta, R)
    lo = min(lo, va)
    t = lo + max(va - lo, 0.02 * abs(va), 1e-3) * float(rng.choice([0.02, 0.2, 1.0, 2.0])) + 1e-4
    if t <= 0:
        t = 1e-3
    t = float(t)
    ctx.note(kind=kind, target_risk=t, min_risk=lo, beta=beta, problem=P.describe())
    o, r = solve(ctx, P, make, lambda q: q.efficient_risk(t, **kw), key="attainable-refused",
                 what="%s efficient_risk(%g), attainable from %g" % (kind, t, lo))
    if set(r) != set(P.tk):
        raise Skip("labels (decided by M01)")
    w = P.port(r)
    got = measure(P, kind, w, beta, R)
    tol = hooks.tol_now() * 3 * max(1.0, np.abs(w).sum())
    if kind == "mv":
        tol = max(tol, 1e-5 / max(t, 1e-4) if ST.solver != "CLARABEL" else 1e-7 / max(t, 1e-4))
    ctx.event("target", want=t, got=got)
    ctx.check(got <= t + tol, "target-risk", "%s: risk %.8g above target %.8g" % (kind, got, t), problem=P.describe(), w=w, beta=beta)
    ctx.sig(kind, "risk", "binding" if got > t - 1e-4 else "slack", *P.signature())


def bad(ctx, kind):
    rng = ctx.rng
    P, R, beta, neutral = setup(ctx, kind)
    make = optimiser(P, kind, beta)
    kw = dict(market_neutral=True) if neutral else {}
    what = str(rng.choice(["ret", "risk", "negative"], p=[0.45, 0.45, 0.1] if kind != "cvar" else [0.5, 0.5, 0]))
    if what == "negative":
        t = -float(rng.choice([0.001, 0.05, 0.3, 2.0]))
        call = lambda e: e.efficient_risk(t, **kw)
    elif what == "ret":
        top = extremes(P, P.mu)
        t = float(top @ P.mu) + float(rng.choice([0.02, 0.2, 5.0]))
        call = lambda e: e.efficient_return(t, **kw)
    else:
        x = cp.Variable(P.n)
        e, cons = risk_expr(P, kind, x, beta, R)
        low = ref_solve(P, e, P.ref_cons(x) + cons, x)
        if low is None or P.violation(low) > 1e-6:
            raise Skip("no reference minimum")
        lo = measure(P, kind, low, beta, R)
        t = lo * float(rng.choice([0.95, 0.7, 0.2]))
        if lo - t < (4e-3 if kind == "mv" else 5e-4) or t < 0 or (kind == "mv" and lo**2 - t**2 < 1e-3):
            raise Skip("minimum risk too small for a clear margin")
        call = lambda e: e.efficient_risk(t, **kw)
    ctx.note(kind=kind, what=what, target=t, problem=P.describe())
    o = make()
    r, err = attempt(lambda: call(o))
    ctx.event("unattainable", target=t, error=err)
    ctx.check(r is None, "unattainable-error", "%s %s target %.6g returned a portfolio" % (kind, what, t), problem=P.describe(),
              result=None if r is None else dict(r))
    ctx.check(o.weights is None, "unattainable-weights", "weights stored although refused")
    ctx.sig("bad", kind, what, err, neutral, P.bkind)
