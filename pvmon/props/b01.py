"""B01 Black-Litterman posterior mean: independent information-form computation, limits and betweenness."""

from .bl import *

BUDGET = {"quick": {"formula": 18730, "certain": 3120, "vague": 3120, "single": 3120, "none": 1200, "redundant": 1500, "mixed": 1500},
          "thorough": {"formula": 374600, "certain": 62400, "vague": 62400, "single": 62400, "none": 20000, "redundant": 30000, "mixed": 30000}}
RULE = ("Each case draws covariance, prior, views, picking matrix, view uncertainty and tau in varied containers, computes posterior "
        "returns and compares with an independent precision-form posterior, or drives the view uncertainty to its limits.")
MIN = {"chk:bl-mean": 300, "chk:view-exact": 50, "chk:prior-returned": 50, "chk:between": 50, "chk:no-views": 50, "chk:view-redundant": 50, "chk:bl-mean-mixed": 50}
ASSUMES = ["view systems of condition number up to 1e8"]


def no_views(rng):
    return BL(rng, K=0, views=str(rng.choice(["dict", "vseries", "PQ", "PQframe"])),
              omega=str(rng.choice(["none", "default", "diag", "frame", "idzorek"])), singular=True)


def sequential(b, om):
    """Posterior by conditioning on one view at a time (no linear system is solved)."""
    m, M = np.array(b.pi, float), b.tau * b.S
    for k in np.argsort(-om):
        p = b.P[k]
        v = M @ p
        s = float(p @ v + om[k])
        m = m + v * (b.Q[k] - p @ m) / s
        M = M - np.outer(v, v) / s
    return m, b.S + M


def precision_form(b):
    """Posterior mean by inverting precisions (different route from the gain form)."""
    tS = b.tau * b.S
    Ti = np.linalg.inv(tS)
    Oi = np.linalg.inv(b.omega)
    H = Ti + b.P.T @ Oi @ b.P
    return np.linalg.solve(H, Ti @ b.pi + b.P.T @ Oi @ b.Q)


def run_case(ctx):
    rng = ctx.rng
    if ctx.kind == "formula":
        b = BL(rng, singular=True)
        g = b.gain()
        ctx.note(**b.describe())
        if g > 1e8:
            if b.oform == "idzorek" or np.linalg.matrix_rank(b.P) < b.K:
                raise Skip("ill-conditioned view system")
            raise Skip("ill-conditioned view system")
        r = b.model().bl_returns()
        ctx.check(isinstance(r, pd.Series) and list(r.index) == list(b.tk), "bl-labels", "%r" % (getattr(r, "index", None),))
        mean, _ = b.posterior()
        tol = 1e-9 + 1e-14 * g
        ctx.close(np.asarray(r), mean, "bl-mean", rtol=max(1e-7, tol), atol=max(1e-9, tol), problem=b.describe(), pi=b.pi, P=b.P, Q=b.Q, omega=b.omega)
        if np.linalg.cond(b.S) < 1e6 and np.linalg.cond(b.omega) < 1e6:
            p = precision_form(b)
            ctx.close(np.asarray(r), p, "bl-mean-precision", rtol=1e-5, atol=1e-7, problem=b.describe())
        ctx.event("posterior", got=np.asarray(r), want=mean)
        ctx.sig(*b.signature(), b.ck)
    elif ctx.kind == "certain":
        b = BL(rng, omega="diag")
        if np.linalg.matrix_rank(b.P) < b.K or np.linalg.cond(b.P @ b.S @ b.P.T) > 1e5:
            raise Skip("views are not independent")
        om = np.zeros((b.K, b.K)) if rng.random() < 0.5 else np.diag(1e-12 * b.base)
        r = b.model(omega=om).bl_returns()
        ctx.close(b.P @ np.asarray(r), b.Q, "view-exact", rtol=1e-6, atol=1e-7, problem=b.describe())
        ctx.sig("certain", *b.signature())
    elif ctx.kind == "vague":
        b = BL(rng, omega="diag")
        r = b.model(omega=np.diag(1e12 * np.maximum(b.base, 1e-6))).bl_returns()
        ctx.close(np.asarray(r), b.pi, "prior-returned", rtol=1e-7, atol=1e-8, problem=b.describe())
        ctx.sig("vague", *b.signature())
    elif ctx.kind == "none":
        # an empty set of views leaves the prior as it is
        b = no_views(rng)
        r = b.model().bl_returns()
        ctx.check(isinstance(r, pd.Series) and list(r.index) == list(b.tk), "bl-labels", "%r" % (getattr(r, "index", None),))
        ctx.close(np.asarray(r), b.pi, "no-views", rtol=1e-10, atol=1e-12, problem=b.describe())
        ctx.sig("none", *b.signature())
    elif ctx.kind == "redundant":
        # certain views, some following from others (repeated or implied), all consistent: every one is met
        b = BL(rng, views="PQ", omega="diag", cov=str(rng.choice(["factor", "wishart", "diag"])))
        x = b.pi + rng.normal(0, 0.05, b.n)
        rows = [int(rng.integers(b.K)) for _ in range(int(rng.integers(1, 3)))]
        extra = [b.P[i] * float(rng.choice([1.0, 1.0, -1.0, 2.0])) for i in rows]
        if b.K > 1 and rng.random() < 0.5:
            i, j = rng.permutation(b.K)[:2]
            extra.append(b.P[i] - b.P[j])
        P = np.vstack([b.P] + extra)
        if np.linalg.cond(b.S) > 1e4 or not np.any(extra):
            raise Skip("ill-conditioned covariance")
        sv = np.linalg.svd(P, compute_uv=False)
        rank = np.linalg.matrix_rank(P)
        if sv[0] > 1e3 * sv[rank - 1]:
            raise Skip("views nearly dependent")
        Q = P @ x
        K = len(P)
        perm = rng.permutation(K)
        r = np.asarray(b.model(P=P[perm], Q=Q[perm], omega=np.zeros((K, K))).bl_returns())
        ctx.close(P @ r, Q, "view-redundant", rtol=1e-4, atol=1e-5, problem=b.describe(), P=P[perm], Q=Q[perm])
        # the same as stating the independent ones alone
        U, s_, Vt = np.linalg.svd(P, full_matrices=False)
        B = Vt[:rank]
        w = b.tau * b.S @ B.T
        want = b.pi + w @ np.linalg.solve(B @ w, B @ (x - b.pi))
        ctx.close(r, want, "bl-mean-redundant", rtol=1e-4, atol=1e-5, problem=b.describe(), P=P[perm], Q=Q[perm])
        ctx.sig("redundant", *b.signature(), len(extra))
    elif ctx.kind == "mixed":
        # view uncertainties of very different magnitude; reference: one view at a time
        b = BL(rng, omega="diag", cov=str(rng.choice(["factor", "wishart", "diag"])))
        if np.linalg.cond(b.S) > 1e4 or np.linalg.matrix_rank(b.P) < b.K or np.linalg.cond(b.P) > 1e2:
            raise Skip("ill-conditioned covariance")
        om = b.base * 10.0 ** rng.uniform(-6, 12, b.K)
        r = np.asarray(b.model(omega=np.diag(om)).bl_returns())
        mean, _ = sequential(b, om)
        ctx.close(r, mean, "bl-mean-mixed", rtol=1e-6, atol=1e-8, problem=b.describe(), omega=om)
        ctx.sig("mixed", *b.signature())
    else:
        b = BL(rng, K=1, omega=str(rng.choice(["none", "diag", "idzorek"])), views=str(rng.choice(["dict", "vseries", "PQ"])))
        r = np.asarray(b.model().bl_returns())
        prior, post, view = float(b.P[0] @ b.pi), float(b.P[0] @ r), float(b.Q[0])
        lo, hi = min(prior, view), max(prior, view)
        ctx.check(lo - 1e-9 <= post <= hi + 1e-9, "between", "prior %.9g, posterior %.9g, view %.9g" % (prior, post, view))
        c = float(b.tau * b.P[0] @ b.S @ b.P[0])
        ctx.close(post, prior + c / (c + b.omega[0, 0]) * (view - prior), "single-view-shift", rtol=1e-7, atol=1e-9)
        ctx.sig("single", *b.signature())
