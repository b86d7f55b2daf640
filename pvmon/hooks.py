"""Instrumentation installed from the harness around pypfopt's public API.

Every outermost public call is an event (call / return / raise) at the client boundary;
nested calls inside the library are not. On top of the events run the universal online
monitors: shadow state of each live object (built only from what the client passed in),
feasibility of every returned portfolio, performance reports, input immutability and
allocation accounting.  Monitors tag what they check with the property it decides."""

import contextlib
import functools
import inspect
import sys
import types

import cvxpy as cp
import numpy as np
import pandas as pd

from . import ref

SOLVER_TOL = {"CLARABEL": 3e-6, "ECOS": 3e-6, "ECOS_BB": 3e-6, "OSQP": 3e-3, "SCS": 5e-3, "SCIPY": 3e-6, "HIGHS": 3e-6}


class State:
    ctx = None
    depth = 0
    fault = None  # callable(problem) -> None, may raise / change the outcome of a solve
    status = None
    solver = None
    nsolves = 0


ST = State()


@contextlib.contextmanager
def attached(ctx):
    ST.ctx, ST.depth, ST.fault = ctx, 0, None
    ctx.shadows = {}
    ctx.registry = []
    try:
        yield
    finally:
        ST.ctx, ST.depth, ST.fault = None, 0, None


@contextlib.contextmanager
def unmonitored():
    """Run harness-internal code (oracles) without producing events."""
    ST.depth += 1
    f, ST.fault = ST.fault, None
    saved = ST.status, ST.solver
    try:
        yield
    finally:
        ST.depth -= 1
        ST.fault = f
        ST.status, ST.solver = saved


# ------------------------------------------------------------------ digests (immutability)


def digest(x, depth=0):
    if isinstance(x, pd.DataFrame):
        return ("DF", tuple(map(repr, x.columns)), tuple(map(repr, x.index)), tuple(map(str, x.dtypes)),
                x.columns.name, x.index.name,
                x.to_numpy().tobytes() if all(d.kind in "fiub" for d in x.dtypes) else repr(x.to_numpy().tolist()))
    if isinstance(x, pd.Series):
        return ("S", tuple(map(repr, x.index)), str(x.dtype), repr(x.name), x.index.name,
                x.to_numpy().tobytes() if x.dtype.kind in "fiub" else repr(x.tolist()))
    if isinstance(x, np.ndarray):
        return ("A", x.shape, str(x.dtype), x.tobytes() if x.dtype.kind in "fiub" else repr(x.tolist()))
    if isinstance(x, pd.Index):
        return ("I", tuple(map(repr, x)), x.name)
    if isinstance(x, dict) and depth < 3:
        return (type(x).__name__, tuple((repr(k), digest(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)) and depth < 3:
        return (type(x).__name__, tuple(digest(v, depth + 1) for v in x))
    if isinstance(x, (int, float, str, bool, np.generic)) or x is None:
        return repr(x)
    return None


def is_data(x):
    return isinstance(x, (pd.DataFrame, pd.Series, np.ndarray, pd.Index, dict, list))


# ------------------------------------------------------------------ shadow of optimisers


class Shadow:
    """Specification state of one optimiser, from the client's calls only."""

    def __init__(self, obj, kind, args):
        self.obj, self.kind, self.args = obj, kind, dict(args)
        self.constraints = []  # callables
        self.sectors = []  # (mapper, lower, upper)
        self.objectives = []
        self.solved = 0
        self.rf = None
        self.weights = None
        self.how = None
        a = self.args
        self.tickers = expected_tickers(kind, a)
        self.n = len(self.tickers)
        self.lb = self.ub = None
        if "weight_bounds" in a:
            try:
                self.lb, self.ub = ref.parse_bounds(a["weight_bounds"], self.n)
            except Exception:
                pass

    def copy_for(self, obj):
        s = Shadow(obj, self.kind, self.args)
        for k in ("constraints", "sectors", "objectives"):
            setattr(s, k, list(getattr(self, k)))
        for k in ("solved", "rf", "weights", "how", "lb", "ub"):
            setattr(s, k, getattr(self, k))
        return s

    @property
    def mu(self):
        m = self.args.get("expected_returns")
        return None if m is None else np.asarray(m, float).ravel()

    @property
    def cov(self):
        c = self.args.get("cov_matrix")
        return None if c is None else np.asarray(c, float)

    def returns(self):
        r = self.args.get("returns")
        return None if r is None else pd.DataFrame(r).dropna(how="any").to_numpy(float)


def expected_tickers(kind, a):
    er, cov, rets = a.get("expected_returns"), a.get("cov_matrix"), a.get("returns")
    if kind in ("EfficientFrontier",):
        if isinstance(er, pd.Series):
            return list(er.index)
        if isinstance(cov, pd.DataFrame):
            return list(cov.columns)
        return list(range(len(np.asarray(er).ravel()) if er is not None else len(cov)))
    if kind in ("EfficientSemivariance", "EfficientCVaR", "EfficientCDaR"):
        if isinstance(er, pd.Series):
            return list(er.index)
        return list(range(np.asarray(rets).shape[1]))
    if kind == "CLA":
        return list(er.index) if isinstance(er, pd.Series) else list(range(len(np.asarray(er).ravel())))
    if kind == "HRPOpt":
        return list(rets.columns) if rets is not None else list(cov.columns)
    if kind == "BlackLittermanModel":
        return list(cov.columns) if isinstance(cov, pd.DataFrame) else list(range(len(cov)))
    return []


OPT = {
    "EfficientFrontier": {"min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk",
                          "efficient_return", "convex_objective", "nonconvex_objective"},
    "EfficientSemivariance": {"min_semivariance", "max_quadratic_utility", "efficient_risk", "efficient_return",
                              "convex_objective", "nonconvex_objective"},
    "EfficientCVaR": {"min_cvar", "efficient_risk", "efficient_return", "convex_objective", "nonconvex_objective"},
    "EfficientCDaR": {"min_cdar", "efficient_risk", "efficient_return", "convex_objective", "nonconvex_objective"},
    "CLA": {"max_sharpe", "min_volatility"},
    "HRPOpt": {"optimize"},
    "BlackLittermanModel": {"bl_weights", "optimize"},
}


def bound_args(fn, self_, a, k):
    try:
        ba = inspect.signature(fn).bind(self_, *a, **k) if self_ is not NOSELF else inspect.signature(fn).bind(*a, **k)
        ba.apply_defaults()
        d = dict(ba.arguments)
        d.pop("self", None)
        kw = d.pop("kwargs", {})
        d.update(kw if isinstance(kw, dict) else {})
        return d
    except TypeError:
        return {}


NOSELF = object()


def tol_now():
    t = SOLVER_TOL.get(ST.solver, 5e-3)
    if ST.status == "optimal_inaccurate":
        t = max(t * 100, 2e-2)
    return t


def violations_of(sh, w, total, tol, amended=False):
    """List of (what, amount) by which w leaves the client's declared feasible set."""
    bad = []
    lb, ub = sh.lb, sh.ub
    if amended:
        lb, ub = np.full(sh.n, -1.0), np.full(sh.n, 1.0)
    if total is not None and abs(w.sum() - total) > tol * max(1, np.abs(w).sum()):
        bad.append(("sum", float(w.sum() - total)))
    v = max(float(np.max(lb - w)), float(np.max(w - ub)))
    if v > tol * max(1.0, np.abs(w).max()):
        bad.append(("bounds", v))
    return bad


def constraint_violations(sh, w, tol):
    bad = []
    scale = max(1.0, float(np.abs(w).sum()))
    with unmonitored():
        for i, c in enumerate(sh.constraints):
            x = cp.Variable(sh.n)
            x.value = w
            try:
                con = c(x)
                v = float(np.max(con.violation()))
            except Exception as e:  # cannot be evaluated numerically: not decided
                continue
            if not v <= tol * 3 * scale:
                bad.append(("constraint %d" % i, v))
    for mapper, lo, hi in sh.sectors:
        for s, u in hi.items():
            tot = sum(x for t, x in zip(sh.tickers, w) if mapper.get(t) == s)
            if tot > u + tol * 3 * scale:
                bad.append(("sector %s upper" % s, tot - u))
        for s, l in lo.items():
            tot = sum(x for t, x in zip(sh.tickers, w) if mapper.get(t) == s)
            if tot < l - tol * 3 * scale:
                bad.append(("sector %s lower" % s, l - tot))
    return bad


def monitor_feasible(ctx, sh, name, d, result):
    """M01: what came back is a portfolio of the declared feasible set."""
    tag = "%s.%s" % (sh.kind, name)
    prop = {"HRPOpt": "O03", "BlackLittermanModel": "B04"}.get(sh.kind, "M01")
    ok = isinstance(result, dict) and set(result) == set(sh.tickers) and len(result) == sh.n
    ctx.check(ok, "labels", "%s returned labels %r for assets %r" % (tag, list(result)[:6] if isinstance(result, dict) else result, sh.tickers[:6]), prop=prop)
    if not ok:
        return None
    if sh.kind != "HRPOpt":
        ctx.check(list(result) == list(sh.tickers), "label-order", tag, prop=prop)
    w = np.array([result[t] for t in sh.tickers], float)
    if not ctx.check(np.isfinite(w).all(), "finite", "%s returned %r" % (tag, w), prop=prop):
        return None
    ow = getattr(sh.obj, "weights", None)
    same = ow is not None and np.asarray(ow).shape == w.shape and np.allclose(np.asarray(ow, float), w, rtol=1e-12, atol=1e-13)
    ctx.check(same, "stored-weights", "%s: .weights is not the returned portfolio" % tag, prop=prop, returned=w, stored=ow)
    if sh.kind in ("HRPOpt", "BlackLittermanModel"):
        ctx.check(abs(w.sum() - 1) < 1e-8 * max(1, np.abs(w).sum()), "sum", tag, prop=prop, w=w)
        return w
    neutral = bool(d.get("market_neutral", False))
    total = 0.0 if neutral else 1.0
    if d.get("weights_sum_to_one") is False:
        total = None
    amended = neutral and not np.any(sh.lb < 0)
    if sh.kind == "CLA":
        tol = 1e-7
    elif name == "nonconvex_objective":
        return w
    else:
        tol = tol_now()
    bad = violations_of(sh, w, total, tol, amended)
    if sh.kind != "CLA":
        bad += constraint_violations(sh, w, tol)
    for what, amount in bad:
        ctx.check(False, what.split()[0], "%s: %s violated by %.3g (solver %s, status %s)" % (tag, what, amount, ST.solver, ST.status),
                  prop=prop, w=w, lb=sh.lb, ub=sh.ub)
    if not bad:
        ctx.check(True, "feasible", prop=prop)
        ctx.count("portfolios_checked")
        ctx.sig("feas", tag, neutral, len(sh.constraints), len(sh.sectors), sh.n, ST.solver,
                "short" if (w < -1e-6).any() else "long", int((np.abs(w) > 1e-4).sum()))
    return w


def monitor_performance(ctx, sh, d, result):
    """P01/G*: the report equals what the weights and inputs give."""
    w = getattr(sh.obj, "weights", None)
    if w is None:
        return
    w = np.asarray(w, float)
    rf = d.get("risk_free_rate", 0.0)
    if sh.kind in ("EfficientFrontier", "CLA"):
        mu, S = sh.mu, sh.cov
        if sh.kind == "EfficientFrontier" and sh.rf is not None:
            rf = sh.rf
    elif sh.kind == "HRPOpt":
        f = d.get("frequency", 252)
        r = sh.args.get("returns")
        if r is None:
            mu, S = None, sh.cov
        else:
            mu, S = r.mean().to_numpy() * f, ref.pair_cov(r) * f
    else:
        return
    ok = isinstance(result, tuple) and len(result) == 3
    ctx.check(ok, "perf-shape", repr(result)[:100], prop="P01")
    if not ok:
        return
    v = ref.variance(w, S)
    scale = float(np.abs(w) @ np.abs(S) @ np.abs(w))
    if v > 1e-11 * scale:
        tol = 1e-7 + 1e-14 * scale / v
        ctx.close(result[1], np.sqrt(v), "perf-vol", rtol=tol, prop="P01")
    if mu is None:
        ctx.check(result[0] is None and result[2] is None, "perf-none", prop="P01")
        return
    m = float(w @ mu)
    ctx.close(result[0], m, "perf-return", rtol=1e-9, atol=1e-12 * max(1, float(np.abs(w) @ np.abs(mu))), prop="P01")
    if v > 1e-11 * scale:
        ctx.close(result[2], (m - rf) / np.sqrt(v), "perf-sharpe", rtol=tol,
                  atol=1e-9 * max(1, (np.abs(w) @ np.abs(mu) + abs(rf)) / np.sqrt(v)), prop="P01", rf=rf)
        ctx.sig("perf", sh.kind, sh.rf is not None, rf != 0, sh.how, sh.n)
        ctx.count("performance_reports")


def monitor_allocation(ctx, obj, args, name, d, result):
    """D01/D02/D03: cash conservation and whole shares for every allocation made."""
    prop = "D01" if name == "greedy_portfolio" else "D02"
    w = args["weights"]
    if any(x < 0 for x in w.values()):
        prop = "D03"
    p = args["latest_prices"]
    V = args["total_portfolio_value"]
    ok = isinstance(result, tuple) and len(result) == 2 and isinstance(result[0], dict)
    if not ctx.check(ok, "alloc-shape", repr(result)[:200], prop=prop):
        return
    alloc, left = result
    ctx.check(all(t in w for t in alloc), "alloc-labels", list(alloc), prop=prop)
    ctx.check(all(float(x) == int(x) and x != 0 for x in alloc.values()), "alloc-whole", dict(alloc), prop=prop)
    neg = [t for t, x in alloc.items() if x < 0]
    pos = [t for t, x in alloc.items() if x > 0]
    ctx.check(all(w[t] < 0 for t in neg if t in w), "alloc-sign", neg, prop=prop)
    ctx.check(all(w[t] >= 0 for t in pos if t in w), "alloc-sign", pos, prop=prop)
    cost_l = sum(x * float(p[t]) for t, x in alloc.items() if x > 0 and t in p.index)
    cost_s = sum(-x * float(p[t]) for t, x in alloc.items() if x < 0 and t in p.index)
    budget_l, budget_s = V, 0.0
    if prop == "D03":
        sr = args.get("short_ratio")
        sr = sum(-x for x in w.values() if x < 0) if sr is None else sr
        budget_s = V * sr
        if d.get("reinvest"):
            budget_l = V + budget_s
    tol = ctol = 1e-6 * max(1.0, V)
    if name == "lp_portfolio":  # the mixed-integer solver's integrality tolerance
        ctol = tol + 1e-4 * float(sum(float(p[t]) for t in w))
    ctx.check(cost_l <= budget_l + ctol, "alloc-budget", "long side costs %.6f of %.6f" % (cost_l, budget_l), prop=prop, alloc=alloc, weights=w)
    ctx.check(cost_s <= budget_s + ctol, "alloc-short-budget", "short side costs %.6f of %.6f" % (cost_s, budget_s), prop=prop, alloc=alloc, weights=w)
    ctx.check(left >= -ctol, "alloc-leftover-sign", left, prop=prop)
    want = budget_l + budget_s - cost_l - cost_s
    ctx.check(abs(float(left) - want) <= tol, "alloc-conservation", "leftover %r, but value minus cost is %.6f" % (left, want), prop=prop, alloc=alloc, weights=w)
    ctx.count("allocations_checked")
    ctx.sig("alloc", name, len(w), len(alloc), len(neg), d.get("reinvest"))


# ------------------------------------------------------------------ the wrapper


def _dispatch(ctx, owner, name, fn, self_, a, k):
    qual = "%s.%s" % (owner, name)
    pre = []
    for x in list(a) + list(k.values()):
        if is_data(x):
            pre.append((x, digest(x)))
    ctx.event("call", fn=qual, obj=None if self_ is NOSELF else id(self_) % 100000)
    ctx.count("call:" + qual)
    outcome = None
    ST.status = ST.solver = None
    try:
        r = fn(*a, **k) if self_ is NOSELF else fn(self_, *a, **k)
        outcome = "return"
    except BaseException as e:
        outcome = "raise"
        ctx.event("raise", fn=qual, error=type(e).__name__)
        ctx.count("raises")
        raise
    finally:
        # harness errors in here would mask the outcome; keep it simple
        for x, dg in pre:
            ctx.check(digest(x) == dg, "input-mutated", "%s changed its %s argument" % (qual, type(x).__name__), prop="S03")
        if ctx.prop == "S03":
            if outcome == "return" or True:
                ctx.registry.extend(pre)
            for x, dg in ctx.registry:
                ctx.check(digest(x) == dg, "retained-input-mutated", "%s changed a %s passed earlier" % (qual, type(x).__name__), prop="S03")
    ctx.event("return", fn=qual)
    if self_ is not NOSELF:
        _after_method(ctx, owner, name, fn, self_, a, k, r)
    return r


def _after_method(ctx, owner, name, fn, self_, a, k, r):
    oid = id(self_)
    if name == "__init__":
        kind = type(self_).__name__
        args = bound_args(fn, self_, a, k)
        if kind in OPT:
            ctx.shadows[oid] = Shadow(self_, kind, args)
        else:
            ctx.shadows[oid] = types.SimpleNamespace(obj=self_, kind=kind, args=args)
        return
    sh = ctx.shadows.get(oid)
    if sh is None or sh.obj is not self_:
        return
    if isinstance(sh, Shadow):
        d = bound_args(fn, self_, a, k)
        if name == "add_constraint":
            sh.constraints.append(d["new_constraint"])
        elif name == "add_objective":
            sh.objectives.append(d)
        elif name == "add_sector_constraints":
            sh.sectors.append((dict(d["sector_mapper"]), dict(d["sector_lower"]), dict(d["sector_upper"])))
        elif name == "deepcopy":
            ctx.shadows[id(r)] = sh.copy_for(r)
        elif name in OPT[sh.kind]:
            sh.solved += 1
            sh.how = name
            if name == "max_sharpe" and sh.kind == "EfficientFrontier":
                sh.rf = d.get("risk_free_rate", 0.0)
            sh.weights = monitor_feasible(ctx, sh, name, d, r)
        elif name == "portfolio_performance":
            monitor_performance(ctx, sh, d, r)
        elif name == "set_weights":
            sh.how = "set_weights"
    elif sh.kind == "DiscreteAllocation" and name in ("greedy_portfolio", "lp_portfolio"):
        monitor_allocation(ctx, self_, sh.args, name, bound_args(fn, self_, a, k), r)


def _wrap(owner, name, fn, method):
    if method:
        @functools.wraps(fn)
        def w(self, *a, **k):
            ctx = ST.ctx
            if ctx is None or ST.depth > 0:
                return fn(self, *a, **k)
            ST.depth += 1
            try:
                return _dispatch(ctx, type(self).__name__, name, fn, self, a, k)
            finally:
                ST.depth -= 1
    else:
        @functools.wraps(fn)
        def w(*a, **k):
            ctx = ST.ctx
            if ctx is None or ST.depth > 0:
                return fn(*a, **k)
            ST.depth += 1
            try:
                return _dispatch(ctx, owner, name, fn, NOSELF, a, k)
            finally:
                ST.depth -= 1
    w.__pvmon__ = True
    return w


def install():
    import pypfopt
    from pypfopt import (base_optimizer, black_litterman, cla, discrete_allocation, expected_returns,  # noqa
                         hierarchical_portfolio, objective_functions, plotting, risk_models)
    import pypfopt.efficient_frontier as efpkg

    mods = [m for nm, m in sorted(sys.modules.items()) if nm == "pypfopt" or nm.startswith("pypfopt.")]
    classes = set()
    for m in mods:
        for nm, v in list(vars(m).items()):
            if inspect.isclass(v) and v.__module__.startswith("pypfopt") and not issubclass(v, Exception):
                classes.add(v)
    for c in classes:
        for nm, v in list(vars(c).items()):
            if nm.startswith("_") and nm != "__init__":
                continue
            if isinstance(v, staticmethod):
                f = v.__func__
                if not hasattr(f, "__pvmon__"):
                    setattr(c, nm, staticmethod(_wrap(c.__name__, nm, f, False)))
            elif inspect.isfunction(v) and not hasattr(v, "__pvmon__"):
                setattr(c, nm, _wrap(c.__name__, nm, v, True))
    replaced = {}
    for m in mods:
        for nm, v in list(vars(m).items()):
            if (inspect.isfunction(v) and not nm.startswith("_") and getattr(v, "__module__", "").startswith("pypfopt")
                    and not hasattr(v, "__pvmon__")):
                if v not in replaced:
                    replaced[v] = _wrap(v.__module__.rsplit(".", 1)[-1], nm, v, False)
    for m in mods:
        for nm, v in list(vars(m).items()):
            if inspect.isfunction(v) and v in replaced:
                setattr(m, nm, replaced[v])

    solve = cp.Problem.solve

    @functools.wraps(solve)
    def monitored_solve(self, *a, **k):
        if ST.fault is not None:
            out = ST.fault(self, a, k)
            if out is not None:
                return out
        r = solve(self, *a, **k)
        ST.status = self.status
        try:
            ST.solver = self.solver_stats.solver_name
        except Exception:
            ST.solver = None
        ST.nsolves += 1
        if ST.ctx is not None:
            ST.ctx.counts["solver_runs"] += 1
        return r

    cp.Problem.solve = monitored_solve
