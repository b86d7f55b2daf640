"""B02 Black-Litterman posterior covariance: formula, symmetry, order, and independence of call history."""

from .bl import *

BUDGET = {"quick": {"formula": 20250, "history": 7230, "none": 1200, "redundant": 1200},
          "thorough": {"formula": 405000, "history": 144600, "none": 20000, "redundant": 20000}}
RULE = ("Each case draws a Black-Litterman model in varied containers; the posterior covariance is compared with an independent "
        "computation and bounded in the positive-semidefinite order; in history cases the result methods are called in random "
        "sequences and every result compared with the first and with a fresh model's.")
MIN = {"chk:cov-formula": 300, "chk:psd-order": 300, "chk:history": 300, "chk:no-views": 50, "chk:cov-redundant": 50}
ASSUMES = ["view systems of condition number up to 1e8"]


def run_case(ctx):
    rng = ctx.rng
    if ctx.kind == "none":
        # without views the posterior carries the full uncertainty of the prior
        b = BL(rng, K=0, views=str(rng.choice(["dict", "vseries", "PQ", "PQframe"])),
               omega=str(rng.choice(["none", "default", "diag", "frame", "idzorek"])), singular=True)
        ctx.note(**b.describe())
        m = b.model()
        if rng.random() < 0.3:
            m.bl_returns()
        C = m.bl_cov()
        ctx.close(np.asarray(C, float), (1 + b.tau) * b.S, "no-views", rtol=1e-10, atol=1e-14, problem=b.describe())
        judge(ctx, b, C, 1.0)
        ctx.sig("none", *b.signature())
        return
    if ctx.kind == "redundant":
        # certain views, one stated twice: nothing is left uncertain about the viewed portfolios
        b = BL(rng, views="PQ", omega="diag", cov=str(rng.choice(["factor", "wishart", "diag"])))
        if np.linalg.cond(b.S) > 1e4 or np.linalg.matrix_rank(b.P) < b.K or np.linalg.cond(b.P) > 1e2:
            raise Skip("ill-conditioned views")
        i = int(rng.integers(b.K))
        P = np.vstack([b.P, b.P[i] * float(rng.choice([1.0, -1.0, 0.5]))])
        if b.K > 1 and rng.random() < 0.5:
            P = np.vstack([P, b.P[0] - b.P[1]])
        perm = rng.permutation(len(P))
        P = P[perm]
        ctx.note(**b.describe())
        C = np.asarray(b.model(P=P, Q=P @ b.pi, omega=np.zeros((len(P), len(P)))).bl_cov(), float)
        s = float(np.abs(b.S).max())
        T = b.tau * b.S @ b.P.T
        want = (1 + b.tau) * b.S - T @ np.linalg.solve(b.P @ T, T.T)
        ctx.close(C, want, "cov-redundant", rtol=1e-6, atol=1e-7 * s, problem=b.describe(), P=P)
        ctx.sig("redundant", *b.signature())
        return
    b = BL(rng, singular=ctx.kind == "formula")
    g = b.gain()
    if g > 1e8:
        raise Skip("ill-conditioned view system")
    ctx.note(**b.describe())
    if ctx.kind == "formula":
        m = b.model()
        if rng.random() < 0.3:
            m.bl_returns()
        C = m.bl_cov()
        judge(ctx, b, C, g)
        ctx.sig(*b.signature(), b.ck)
        return
    m = b.model()
    first, log = {}, []
    rf = float(rng.choice([0.0, 0.02]))
    d2 = float(rng.choice([1.0, 3.0]))
    names = ["bl_returns", "bl_cov", "performance", "set_weights"]
    if b.weights_defined():
        names += ["bl_weights", "weights2", "optimize"]
    w_set = gen.anchor(rng, b.n, 1.0, True)
    current = None
    for step in range(int(rng.integers(4, 10))):
        nm = str(rng.choice(names))
        log.append(nm)
        if nm in ("bl_returns", "bl_cov"):
            got = np.asarray(getattr(m, nm)())
            key = nm
        elif nm in ("bl_weights", "optimize"):
            r = getattr(m, nm)()
            got, current, key = np.array([r[t] for t in b.tk]), "implied", "weights"
        elif nm == "weights2":
            r = m.bl_weights(risk_aversion=d2)
            got, current, key = np.array([r[t] for t in b.tk]), "implied", "weights"
        elif nm == "set_weights":
            m.set_weights(dict(zip(b.tk, w_set)))
            got, current, key = np.asarray(m.weights, float), "set", "set"
            ctx.close(got, w_set, "history", rtol=0, atol=0)
        else:
            if current is None:
                try:
                    m.portfolio_performance()
                    ctx.check(False, "performance-without-weights")
                except ValueError:
                    ctx.check(True, "performance-without-weights")
                continue
            p = m.portfolio_performance(risk_free_rate=rf)
            got, key = np.array(p, float), "perf-" + current
        if key in first:
            scale = max(1.0, float(np.abs(first[key]).max()))
            ctx.close(got, first[key], "history", rtol=1e-9, atol=1e-10 * scale, what=key, calls=log)
        else:
            # a fresh model with no history gives the same
            f = b.model()
            if key == "bl_returns":
                want = np.asarray(f.bl_returns())
            elif key == "bl_cov":
                want = np.asarray(f.bl_cov())
            elif key == "weights":
                want = np.array(list(f.bl_weights().values()))
            elif key == "perf-implied":
                f.bl_weights()
                want = np.array(f.portfolio_performance(risk_free_rate=rf), float)
            elif key == "perf-set":
                f.set_weights(dict(zip(b.tk, w_set)))
                want = np.array(f.portfolio_performance(risk_free_rate=rf), float)
            else:
                want = got
            scale = max(1.0, float(np.abs(want).max()))
            ctx.close(got, want, "history", rtol=1e-9, atol=1e-10 * scale, what=key, calls=log)
            first[key] = got
        ctx.event("call-result", call=nm)
    judge(ctx, b, m.bl_cov(), g)
    ctx.sig("history", "-".join(log[:4]))


def judge(ctx, b, C, g):
    ctx.check(isinstance(C, pd.DataFrame) and list(C.index) == list(b.tk) and list(C.columns) == list(b.tk), "cov-labels",
              "%r" % (getattr(C, "columns", None),))
    C = np.asarray(C, float)
    _, want = b.posterior()
    s = float(np.abs(b.S).max())
    tol = 1e-8 + 1e-14 * g
    ctx.close(C, want, "cov-formula", rtol=tol, atol=tol * s * b.tau + 1e-12 * s, problem=b.describe(), S=b.S, P=b.P, omega=b.omega)
    ctx.close(C, C.T, "cov-symmetric", rtol=0, atol=(1e-10 + 1e-14 * g) * s)
    lo = np.linalg.eigvalsh((C + C.T) / 2 - b.S).min()
    hi = np.linalg.eigvalsh((1 + b.tau) * b.S - (C + C.T) / 2).min()
    eps = (1e-10 + 1e-14 * g) * s * b.n
    ctx.check(lo >= -eps, "psd-order", "below the prior covariance by %.3g" % lo, problem=b.describe())
    ctx.check(hi >= -eps, "psd-order", "above (1+tau) times the prior covariance by %.3g" % hi, problem=b.describe())
