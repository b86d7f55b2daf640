"""D02 Linear-programming allocation: feasibility, conservation, optimality against an exact MILP and against any witness."""

from .alloc import *

BUDGET = {"quick": {"exact": 3770, "default": 1890},
          "thorough": {"exact": 75400, "default": 37800}}
RULE = ("Each case draws weights, prices (other order, extra assets) and a portfolio value, allocates by integer programming with an exact "
        "or the default solver, counts shares and cash, and compares the deviation-plus-cash objective with an independent MILP and with "
        "witness allocations (greedy, rounded, perturbed).")
MIN = {"chk:lp-conservation": 150, "chk:lp-optimal": 100}
ASSUMES = ["optimality up to the relative gap (of the portfolio value) at which the solver stops: 1e-4 for HiGHS, 1e-3 for ECOS_BB, and only when the solver reports a proven optimum"]
CASE_LIMIT_S = 60


def run_case(ctx):
    rng = ctx.rng
    b = Book(rng, n=int(rng.choice([1, 2, 3, 4, 5, 6, 8])), pkind=str(rng.choice(["round", "cents", "share", "spread", "dear", "whole", "same"])))
    ctx.note(**b.describe())
    kw = {"solver": "SCIPY"} if ctx.kind == "exact" else {}
    if rng.random() < 0.1:
        kw["verbose"] = True
    o = b.da()
    r, err = attempt(lambda: o.lp_portfolio(**kw))
    if err is not None:
        ctx.count("refusals")
        raise Skip("solver: " + err)
    alloc, left = r
    x, cost = long_only_rules(ctx, b, alloc, left, "lp", inttol=2e-6 if ctx.kind == "exact" else 1e-4)
    ctx.close(float(left), b.V - cost, "lp-conservation", rtol=0, atol=1e-8 * b.V, problem=b.describe(), alloc=dict(alloc))
    p = np.array([float(b.prices[t]) for t in b.tk])
    got = ref.lp_alloc_objective(x, b.w, p, b.V)
    best, bx, how = np.inf, None, None
    cands = [("floor", np.floor(b.w * b.V / p))]
    m = ref.milp_alloc(b.w, p, b.V)
    if m is not None:
        cands.append(("milp", m[1]))
    for _ in range(30):
        y = x + rng.integers(-1, 2, b.n) * (rng.random(b.n) < 0.5)
        cands.append(("perturbed", np.maximum(y, 0)))
    for i in range(b.n):
        y = x.copy()
        y[i] += 1
        cands.append(("one more", y))
    for h, y in cands:
        if p @ y <= b.V:
            v = ref.lp_alloc_objective(y, b.w, p, b.V)
            if v < best:
                best, bx, how = v, y, h
    rel = (got - best) / b.V
    ctx.note(relgap=rel)
    ctx.note(status=str(ST.status))
    if ST.status != "optimal":
        # the branch-and-bound heuristic gave up early: only feasibility and accounting are claimed
        ctx.count("inexact")
        raise Skip("solver stopped before proving optimality")
    slack = 1.3e-4 if ctx.kind == "exact" else 2e-3  # relative gap both solvers stop at
    if rel > slack:
        # a wrong answer of the mixed-integer solver is not the library's: ask another one
        for alt in ("ECOS_BB", "SCIPY"):
            r2, err = attempt(lambda: b.da().lp_portfolio(solver=alt))
            if err is None and ST.status == "optimal" and ref.lp_alloc_objective(shares(b, r2[0]), b.w, p, b.V) <= best + 2e-3 * b.V:
                ctx.count("solver_trouble")
                raise Skip("solver error")
    ctx.check(rel <= slack, "lp-optimal", "objective %.9g, but %s allocation %r attains %.9g" % (
        got, how, None if bx is None else bx.tolist(), best), weights=b.weights, prices=b.prices, value=b.V, alloc=dict(alloc))
    ctx.event("allocation", objective=got, best=best, by=how)
    ctx.sig(*b.signature(ctx.kind, int((x > 0).sum())))
