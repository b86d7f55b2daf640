"""X01 The chosen solver, its options and its verbosity are the ones used, and none of them changes the problem.

Hooks sit where the modelling layer hands a compiled problem to a solver (every solver interface's solve_via_data) and
where the general-purpose minimiser starts a method.  Each record is (solver, options, verbose); what a client asked for
is compared with every record its calls caused.  Deliberately not hooked: how the library passes the request on."""

import io
import logging

import scipy.optimize._minimize as smin

from .risklib import *
from . import alloc
from pypfopt import DiscreteAllocation, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, plotting  # noqa: E402

BUDGET = {"quick": {"named": 1100, "copies": 400, "plot": 60, "alloc": 400, "general": 160, "agree": 500, "refused": 250},
          "thorough": {"named": 26000, "copies": 9000, "plot": 1500, "alloc": 9000, "general": 3500, "agree": 11000, "refused": 6000}}
RULE = ("named: class, method, solver (or none), legal options of that solver, verbosity and argument style drawn at random; every solve "
        "caused by the first optimisation and by 1-3 re-solves is recorded at the solver interface. copies: deep copies of solved and unsolved optimisers; "
        "plot: frontier sweeps; alloc: integer programmes of long-only and long/short books; general: the general-purpose "
        "minimiser's method, starting point and bounds; agree: the same problem under different solvers and verbosities. "
        "refused: unknown and unsuitable solvers and unknown options.")
MIN = {"chk:solver": 2000, "chk:options": 2000, "chk:verbosity": 2000, "chk:alloc-solver": 300, "chk:agree": 300, "chk:refused": 200,
       "chk:start": 90, "chk:default": 200}
ASSUMES = ["a solver interface runs with the options and verbosity it is handed"]

LOG = []
INNER = [0]


def _install():
    from cvxpy.reductions.solvers import defines

    seen = set()
    for m in (defines.SOLVER_MAP_CONIC, defines.SOLVER_MAP_QP):
        for s in m.values():
            t = type(s)
            if t in seen or "solve_via_data" not in t.__dict__:
                continue
            seen.add(t)
            orig = t.solve_via_data

            def via(self, data, warm_start, verbose, solver_opts, solver_cache=None, _orig=orig):
                if INNER[0] == 0:
                    LOG.append((self.name(), bool(verbose), dict(solver_opts)))
                INNER[0] += 1
                try:
                    return _orig(self, data, warm_start, False, solver_opts, solver_cache)
                finally:
                    INNER[0] -= 1

            t.solve_via_data = via
    for nm in ("_minimize_slsqp", "_minimize_trustregion_constr", "_minimize_cobyla"):
        orig = getattr(smin, nm)

        def run(fun, x0, *a, _orig=orig, _nm=nm, **k):
            LOG.append((_nm, np.array(x0, float).ravel(), {}))
            return _orig(fun, x0, *a, **k)

        setattr(smin, nm, run)
    smin_logger = logging.getLogger("__cvxpy__")
    for h in smin_logger.handlers:
        h.setStream(io.StringIO()) if hasattr(h, "setStream") else None


_install()

OPTIONS = {
    "CLARABEL": [{}, {"max_iter": 300}, {"tol_gap_abs": 1e-9, "tol_gap_rel": 1e-9}, {"max_iter": 400, "tol_feas": 1e-9}, {"equilibrate_enable": True}, {"equilibrate_enable": False}, {"presolve_enable": False, "max_iter": 300}],
    "ECOS": [{}, {"max_iters": 400}, {"abstol": 1e-9}, {"reltol": 1e-9, "feastol": 1e-9}],
    "OSQP": [{"max_iter": 40000}, {"eps_abs": 1e-7, "eps_rel": 1e-7, "max_iter": 60000}, {"polish": True, "max_iter": 50000}, {"polish": False, "max_iter": 45000}],
    "SCS": [{"max_iters": 40000}, {"eps_abs": 1e-6, "eps_rel": 1e-6, "max_iters": 60000}, {"acceleration_lookback": 0, "max_iters": 60000}],
    "SCIPY": [{}, {"scipy_options": {"method": "highs-ds"}}, {"scipy_options": {"method": "highs"}}],
}
MINE = {"ef": ["CLARABEL", "ECOS", "OSQP", "SCS", None], "semi": ["CLARABEL", "ECOS", "SCS", "OSQP", None], "cvar": ["CLARABEL", "ECOS", "SCIPY", "SCS", None],
        "cdar": ["CLARABEL", "ECOS", "SCIPY", None]}
CLS = {"ef": EfficientFrontier, "semi": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


class Request:
    """What a client asks for: data, class, solver, options, verbosity."""

    def __init__(self, rng, kinds=("ef", "ef", "semi", "cvar", "cdar"), solvers=None, n=None):
        self.kind = pick(rng, list(kinds))
        self.n = n or int(rng.integers(2, 6))
        self.tk = ["A%d" % i for i in rng.permutation(self.n)]
        self.R = gen.returns_panel(rng, self.n, int(rng.choice([20, 35])), tk=self.tk)[0]
        # always attainable targets, also above zero
        self.mu = pd.Series(np.sort(rng.uniform(0.05, 0.3, self.n)) + 0.02 * np.arange(self.n), self.tk)
        self.S = pd.DataFrame(gen.covariance(rng, self.n, "wishart")[0], self.tk, self.tk)
        self.solver = pick(rng, solvers or MINE[self.kind])
        self.opts = None if self.solver is None else dict(pick(rng, OPTIONS[self.solver]))
        if self.solver is None or (not self.opts and rng.random() < 0.5):
            self.opts = None
        self.verbose = bool(rng.random() < 0.4)
        self.style = pick(rng, ["keyword", "keyword", "positional"])
        self.bounds = pick(rng, [(0, 1), (0, 1), (-0.5, 1)])
        self.given = None if self.opts is None else {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.opts.items()}
        self.omit = rng.random() < 0.3

    def make(self, **over):
        solver, verbose, opts = over.get("solver", self.solver), over.get("verbose", self.verbose), over.get("opts", self.given)
        if self.style == "positional":
            tail = (self.bounds, solver, verbose, opts)
            if self.kind == "ef":
                return EfficientFrontier(self.mu, self.S, *tail)
            if self.kind == "semi":
                return EfficientSemivariance(self.mu, self.R, 252, 0, *tail)
            return CLS[self.kind](self.mu, self.R, 0.9, *tail)
        kw = dict(weight_bounds=self.bounds)
        if solver is not None or not self.omit:
            kw["solver"] = solver
        if verbose or not self.omit:
            kw["verbose"] = verbose
        if opts is not None or not self.omit:
            kw["solver_options"] = opts
        if self.kind == "ef":
            return EfficientFrontier(self.mu, self.S, **kw)
        if self.kind == "semi":
            return EfficientSemivariance(self.mu, self.R, benchmark=0, **kw)
        return CLS[self.kind](self.mu, self.R, beta=0.9, **kw)

    def methods(self, rng):
        """name -> list of argument tuples, all feasible"""
        k, R = self.kind, self.R.to_numpy()
        lo, hi = float(self.mu.min()), float(self.mu.max())
        e = np.ones(self.n) / self.n
        risk = {"ef": lambda: ref.vol(e, self.S.to_numpy()), "semi": lambda: ref.semidev(e, R, 0, 252),
                "cvar": lambda: max(ref.cvar(e, R, 0.9), 1e-3), "cdar": lambda: max(ref.cdar(e, R, 0.9), 1e-3)}[k]()
        M = {"efficient_return": [(float(lo + u * (hi - lo)),) for u in rng.uniform(0.05, 0.9, 3)],
             "efficient_risk": [(float(risk * u),) for u in rng.uniform(1.01, 1.6, 3)]}
        if k == "ef":
            M["min_volatility"] = [()]
            M["max_sharpe"] = [()]
        else:
            M[SPEC[k]["minimise"]] = [()]
        if k in ("ef", "semi"):
            M["max_quadratic_utility"] = [(float(d),) for d in rng.uniform(0.5, 5, 3)]
        M["convex_objective"] = [(lambda w: cp.sum_squares(w),)] if self.solver != "SCIPY" else [(lambda w: cp.norm1(w - 0.3),)]
        if self.solver == "OSQP":  # quadratic programmes only
            M = {m: a for m, a in M.items() if m in ("min_volatility", "efficient_return", "max_quadratic_utility", "min_semivariance", "convex_objective")}
        if self.solver == "SCIPY":  # linear programmes only
            M = {m: a for m, a in M.items() if m not in ("max_quadratic_utility",)}
        if self.solver == "OSQP" and k == "ef":
            pass
        return M

    def describe(self):
        return dict(kind=self.kind, solver=self.solver, options=self.opts, verbose=self.verbose, style=self.style, bounds=self.bounds, n=self.n)


def judge(ctx, Q, entries, where, default=None):
    for name, verbose, opts in entries:
        if Q.solver is not None:
            ctx.check(name == Q.solver, "solver", "%s ran on %s, requested %s" % (where, name, Q.solver), request=Q.describe())
        elif default is not None:
            ctx.check(name == default, "default", "%s ran on %s, the default for this problem is %s" % (where, name, default))
        ctx.check(bool(verbose) == Q.verbose, "verbosity", "%s ran with verbose=%r, requested %r" % (where, verbose, Q.verbose), request=Q.describe())
        want = Q.opts or {}
        got = {k: v for k, v in opts.items() if k not in IMPLIED}
        ctx.check(got == want, "options", "%s ran with options %r, requested %r" % (where, got, want), request=Q.describe())
    ctx.event("solve", where=where, request=Q.describe(), seen=[(a, b, sorted(c)) for a, b, c in entries])


IMPLIED = {"use_quad_obj"}


def quietly(fn):
    import contextlib

    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(fn)


def default_for(problem):
    """The modelling layer's own choice for a problem."""
    try:
        return problem.get_problem_data(solver=None)[1].solver.name()
    except Exception:
        return None


class Seen:
    """Problems handed to the modelling layer during a call."""

    def __enter__(self):
        self.problems, self.orig = [], cp.Problem.solve
        me = self

        def solve(p, *a, **k):
            me.problems.append(p)
            return me.orig(p, *a, **k)

        cp.Problem.solve = solve
        return self

    def __exit__(self, *a):
        cp.Problem.solve = self.orig


def recorded(fn):
    del LOG[:]
    with Seen() as s:
        r, err = quietly(fn)
    entries = list(LOG)
    del LOG[:]
    return r, err, entries, s.problems


def one(ctx, Q, o, m, a, where):
    r, err, entries, problems = recorded(lambda: getattr(o, m)(*a))
    d = None
    if Q.solver is None and len(entries) == len(problems) == 1 and ctx.rng.random() < 0.5:
        with hooks.unmonitored():
            d = default_for(problems[0])
    if err is None:
        ctx.check(len(entries) >= 1, "solver", "%s returned weights without any solve" % where)
    judge(ctx, Q, entries, where, d)
    ctx.count("solves", len(entries))
    return r, err


def k_named(ctx, rng):
    Q = Request(rng)
    ctx.note(**Q.describe())
    M = Q.methods(rng)
    m = pick(rng, sorted(M))
    if Q.solver is None and rng.random() < 0.6:
        # options alone: legal ones of the solver this problem gets by default
        _, _, probe, _ = recorded(lambda: getattr(Q.make(), m)(*M[m][0]))
        if probe:
            Q.opts = dict(pick(rng, [x for x in OPTIONS[probe[0][0]] if x]))
            Q.given = dict(Q.opts)
    o = Q.make()
    if rng.random() < 0.3 and (Q.solver or not Q.opts):
        o.add_constraint(lambda w: w[0] <= 0.95)
    if rng.random() < 0.2 and Q.solver not in ("SCIPY",) and m != "max_sharpe" and (Q.solver or not Q.opts):
        o.add_objective(lambda w: 0.01 * cp.sum_squares(w))
    r, err = one(ctx, Q, o, m, M[m][0], "%s.%s" % (Q.kind, m))
    if err is not None and Q.solver in ("CLARABEL", None):
        ctx.count("refused-legal")
    if err is None:
        for a in M[m][1:]:
            one(ctx, Q, o, m, a, "re-solved %s.%s" % (Q.kind, m))
    ctx.check(Q.given == Q.opts, "options", "the caller's options were changed to %r" % (Q.given,))
    ctx.sig("named", Q.kind, m, Q.solver, tuple(sorted(Q.opts or ())), Q.verbose, Q.style, err is None)


def k_copies(ctx, rng):
    Q = Request(rng)
    M = Q.methods(rng)
    m = pick(rng, sorted(M))
    o = Q.make()
    if rng.random() < 0.5:
        one(ctx, Q, o, m, M[m][0], "%s.%s" % (Q.kind, m))
        c = o.deepcopy()
        one(ctx, Q, c, m, M[m][-1], "copy of a solved %s.%s" % (Q.kind, m))
    else:
        c = o.deepcopy()
        c.add_constraint(lambda w: w[0] >= -0.4)
        if rng.random() < 0.5:
            c = c.deepcopy()
        one(ctx, Q, c, m, M[m][0], "copy of %s.%s" % (Q.kind, m))
        m2 = pick(rng, sorted(M))
        one(ctx, Q, o, m2, M[m2][0], "original after copy %s.%s" % (Q.kind, m2))
    # another object with other settings is not affected
    Q2 = Request(rng)
    M2 = Q2.methods(rng)
    m = pick(rng, sorted(M2))
    one(ctx, Q2, Q2.make(), m, M2[m][0], "other object %s.%s" % (Q2.kind, m))
    ctx.sig("copies", Q.kind, m, Q.solver, Q.verbose, Q2.solver)


def k_plot(ctx, rng):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    Q = Request(rng, kinds=("ef",), solvers=["CLARABEL", "ECOS", "SCS"])
    prm = pick(rng, ["return", "utility", "risk", "return"])
    kw = dict(points=4) if prm == "return" and rng.random() < 0.6 else {}
    if not kw:
        v = ref.vol(np.ones(Q.n) / Q.n, Q.S.to_numpy())
        kw["ef_param_range"] = {"return": np.linspace(float(Q.mu.min()) + 0.01, float(Q.mu.max()) - 0.01, 3), "utility": np.array([0.5, 1.0, 3.0]),
                                "risk": np.array([v, v * 1.2])}[prm]
    fig, ax = plt.subplots()
    try:
        r, err, entries, _ = recorded(lambda: plotting.plot_efficient_frontier(Q.make(), ef_param=prm, ax=ax, showfig=False, **kw))
    finally:
        plt.close(fig)
    if err is not None:
        raise Skip(err)
    ctx.check(len(entries) >= 2, "solver", "a frontier sweep with %d solves" % len(entries))
    judge(ctx, Q, entries, "frontier sweep over " + prm)
    ctx.sig("plot", prm, Q.solver, Q.verbose, tuple(sorted(Q.opts or ())), "points" in kw)


def k_alloc(ctx, rng):
    shorts = rng.random() < 0.5
    b = alloc.Book(rng, shorts=shorts, hi=6)
    s = pick(rng, ["ECOS_BB", "SCIPY", None])
    kw = {} if s is None else dict(solver=s)
    if rng.random() < 0.4:
        kw["verbose"] = bool(rng.random() < 0.5)
    if shorts and rng.random() < 0.5:
        kw["reinvest"] = True
    r, err, entries, _ = recorded(lambda: b.da().lp_portfolio(**kw))
    for name, verbose, opts in entries:
        ctx.check(name == (s or "ECOS_BB"), "alloc-solver", "integer programme ran on %s, requested %s" % (name, s or "the documented default ECOS_BB"), kw=kw)
        ctx.check(not verbose, "verbosity", "integer programme ran with solver output")
    if err is None and not shorts:
        ctx.check(len(entries) == 1, "alloc-solver", "%d integer programmes for one book" % len(entries))
    ctx.sig("alloc", s, shorts, len(entries), err)


def k_general(ctx, rng):
    Q = Request(rng, kinds=("ef", "ef", "semi", "cvar"))
    o = Q.make()
    n = Q.n
    S = Q.S.to_numpy()
    kw = {}
    how = pick(rng, [None, "SLSQP", "trust-constr", "COBYLA"])
    if how:
        kw["solver"] = how
    x0 = None
    if rng.random() < 0.6:
        x0 = rng.dirichlet(np.ones(n))
        kw["initial_guess"] = x0 if rng.random() < 0.6 else (x0.reshape(-1, 1) if rng.random() < 0.4 and how in (None, "SLSQP") else x0.tolist())
    seen = []

    def f(w, C):
        seen.append(np.array(w, float))
        return float(np.asarray(w).ravel() @ C @ np.asarray(w).ravel())

    r, err, entries, _ = recorded(lambda: o.nonconvex_objective(f, objective_args=(S,) if rng.random() < 0.5 else S, **kw))
    want = {"SLSQP": "_minimize_slsqp", "trust-constr": "_minimize_trustregion_constr", "COBYLA": "_minimize_cobyla"}[how or "SLSQP"]
    ctx.check(len(entries) == 1 and entries[0][0] == want, "method", "ran %r, requested %r" % ([e[0] for e in entries], how))
    if entries:
        start = x0 if x0 is not None else np.ones(n) / n
        # the minimiser moves a starting point into the bounds
        lo, hi = Q.bounds
        ctx.check(np.allclose(entries[0][1], np.clip(start, lo, hi), atol=1e-12), "start", "started from %r, requested %r" % (entries[0][1], start))
    ctx.sig("general", how, x0 is not None, Q.kind, err)


def k_agree(ctx, rng):
    """The same problem under two solver settings: the same optimum."""
    Q = Request(rng, solvers=["CLARABEL"])
    M = Q.methods(rng)
    m = pick(rng, [k for k in sorted(M) if k != "convex_objective"])
    a = M[m][0]
    R, S, mu = Q.R.to_numpy(), Q.S.to_numpy(), Q.mu.to_numpy()
    risk = {"ef": lambda w: ref.vol(w, S), "semi": lambda w: ref.semidev(w, R, 0, 252), "cvar": lambda w: ref.cvar(w, R, 0.9),
            "cdar": lambda w: ref.cdar(w, R, 0.9)}[Q.kind]
    if m == "efficient_risk":
        f = lambda w: float(w @ mu)
    elif m == "max_sharpe":
        f = lambda w: float(w @ mu) / risk(w)
    elif m == "max_quadratic_utility":
        f = lambda w: float(w @ mu) - 0.5 * a[0] * risk(w) ** 2 if Q.kind == "ef" else float(w @ mu) / 252 - 0.5 * a[0] * risk(w) ** 2 / 252
    else:
        f = risk
    others = ["ECOS", None, "CLARABEL"] + ({"ef": ["OSQP"] if m in ("min_volatility", "efficient_return", "max_quadratic_utility") else [],
                                            "semi": [], "cvar": ["SCIPY"], "cdar": ["SCIPY"]}[Q.kind])
    alt = pick(rng, others)
    va = bool(rng.random() < 0.5)
    over = dict(solver=alt, verbose=va, opts=dict(pick(rng, OPTIONS[alt])) if alt else None)
    r1, e1, _, _ = recorded(lambda: getattr(Q.make(), m)(*a))
    r2, e2, seen, _ = recorded(lambda: getattr(Q.make(**over), m)(*a))
    if e1 or e2:
        raise Skip("%s/%s" % (e1, e2))
    v1, v2 = (f(np.array([r[t] for t in Q.tk])) for r in (r1, r2))
    coarse = any(e[0] in ("OSQP", "SCS") for e in seen)
    if coarse and Q.kind != "ef":
        raise Skip("first-order solver on tiny numbers")
    tol, at = (2e-2, 2e-3) if coarse else (2e-4, 2e-5 if Q.kind != "ef" else 1e-6)
    ctx.close(v2, v1, "agree", rtol=tol, atol=at, msg="%s.%s with %s" % (Q.kind, m, over))
    if alt == "CLARABEL" and not over["opts"] and not Q.opts:
        ctx.check(list(r1.values()) == list(r2.values()), "verbosity", "verbosity changed the weights", a=r1, b=r2)
    ctx.sig("agree", Q.kind, m, alt, va)


def k_refused(ctx, rng):
    """Unknown or unsuitable solvers and unknown options never give a portfolio."""
    Q = Request(rng, solvers=["CLARABEL"])
    M = Q.methods(rng)
    m = pick(rng, [k for k in sorted(M) if k != "convex_objective"])
    what = pick(rng, ["unknown", "not-installed", "option", "unsuitable", "iterations"])
    if what == "unknown":
        over = dict(solver=pick(rng, ["NOPE", "clarabell", "", "ECOS2"]), opts=None)
    elif what == "not-installed":
        miss = [s for s in ("MOSEK", "GUROBI", "CPLEX", "XPRESS") if s not in cp.installed_solvers()]
        over = dict(solver=pick(rng, miss), opts=None)
    elif what == "option":
        over = dict(solver=pick(rng, ["CLARABEL", "OSQP"]), opts={"no_such_option": 1})
    elif what == "iterations":
        over = dict(solver=pick(rng, ["CLARABEL", "ECOS"]))
        over["opts"] = {"max_iter": 1} if over["solver"] == "CLARABEL" else {"max_iters": 1}
    else:
        if Q.kind not in ("ef", "semi"):
            raise Skip("linear problems suit every solver")
        if Q.kind == "semi" and m == "x":
            raise Skip()
        over = dict(solver="SCIPY", opts=None)  # a linear solver for a quadratic problem
    o = Q.make(**over)
    err = None
    r = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import contextlib

            with contextlib.redirect_stdout(io.StringIO()):
                r = getattr(o, m)(*M[m][0])
    except Exception as e:
        err = type(e).__name__
    except BaseException as e:
        if type(e).__name__ != "PanicException":
            raise
        err = "panic"
    ctx.check(err is not None, "refused", "%s.%s with %r returned %r" % (Q.kind, m, over, r))
    ctx.check(o.weights is None, "refused-weights", "weights stored by a failed call: %r" % (o.weights,))
    ctx.sig("refused", what, Q.kind, m, err)
