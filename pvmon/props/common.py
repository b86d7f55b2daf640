"""Helpers shared by the property workloads."""

import warnings

import cvxpy as cp
import numpy as np
import pandas as pd

from .. import gen, hooks, ref
from ..core import CaseTimeout, Skip
from ..hooks import ST

import os  # noqa: E402

import pypfopt  # noqa: E402
from pypfopt import exceptions  # noqa: E402

PKG = os.path.dirname(pypfopt.__file__) + os.sep


def attempt(fn):
    """Run a client call: (result, None) or (None, kind of refusal)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(), None
    except exceptions.OptimizationError as e:
        return None, "opt:%s" % (ST.status or "?")
    except exceptions.InstantiationError:
        return None, "inst"
    except cp.SolverError:
        return None, "solver"
    except ValueError as e:
        return None, "value:%s" % str(e)[:80]
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            return None, "solver"
        if type(e).__name__ == "ArpackNoConvergence":  # cvxpy's (randomised) eigenvalue test of a large matrix
            raise Skip("cvxpy could not certify a matrix")
        raise


def solve(ctx, P, make, call, key="refused-feasible", feasible=True, what=""):
    """Solve a problem that has a strictly feasible point by construction.  A refusal is
    retried with the interior-point solver (numerical trouble of a first-order solver is not
    the library's claim); a refusal there too contradicts feasibility."""
    o = make()
    r, err = attempt(lambda: call(o))
    if err is None:
        return o, r
    ctx.count("refusals")
    errs = [(P.solver, err)]
    keep = P.solver
    for alt in ("CLARABEL", "ECOS", None):
        if alt == keep:
            continue
        P.solver = alt
        try:
            o = make()
            r, err = attempt(lambda: call(o))
        finally:
            P.solver = keep
        if err is None:
            ctx.count("solver_trouble")
            ctx.note(solver_trouble=errs)
            return o, r
        errs.append((alt, err))
    err = errs
    if feasible:
        ctx.check(False, key, "%s refused (%s) although a strictly feasible portfolio exists" % (what, err),
                  problem=P.describe(), anchor=P.a, mu=P.mu, cov=P.S if P.n <= 6 else None)
    raise Skip("refused: " + str(err))


def ref_solve(P, obj, cons, w):
    st, v = ref.solve(obj, cons, w)
    return v if st == "optimal" else None


def best_of(P, f, cands, vtol=2e-7):
    """Best objective among verified-feasible candidate portfolios."""
    best, bw = np.inf, None
    for c in cands:
        if c is None or not np.all(np.isfinite(c)):
            continue
        if P.violation(c) > vtol * max(1, np.abs(c).max()):
            continue
        v = f(c)
        if v < best:
            best, bw = v, c
    return best, bw


def loosen(solver_name):
    """Relative objective slack granted to a solver."""
    return {"CLARABEL": 5e-6, "ECOS": 5e-6, "SCIPY": 1e-6}.get(solver_name, 1e-2)


def randw(rng, n, total=1.0):
    w = rng.normal(0, 1, n)
    w = w - w.mean() + total / n
    return w


class LoopBudget(BaseException):
    """More loop iterations inside the library than the input can justify."""


def bounded(fn, budget, tool=3):
    """Run fn counting backward jumps executed in library code: (result, count) or (None, count)
    when the count exceeds the budget.  Deterministic, so non-termination is decided without a clock."""
    import sys

    mon = sys.monitoring
    root = PKG
    n = [0]

    def on_jump(code, off, dest):
        if not code.co_filename.startswith(root):
            return mon.DISABLE
        if dest < off:
            n[0] += 1
            if n[0] > budget:
                raise LoopBudget()

    mon.use_tool_id(tool, "pvmon")
    try:
        mon.register_callback(tool, mon.events.JUMP, on_jump)
        mon.restart_events()
        mon.set_events(tool, mon.events.JUMP)
        return fn(), n[0]
    except LoopBudget:
        return None, n[0]
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.JUMP, None)
        mon.free_tool_id(tool)
