"""S04 A deep copy is independent: a tree of copies under interleaved additions and solves, every
outcome against an object freshly built with that node's own history."""

from .risklib import *
from .s02 import same, snapshot

BUDGET = {"quick": {"ef": 930, "hist": 440, "sharpe": 440},
          "thorough": {"ef": 18600, "hist": 8800, "sharpe": 8800}}
RULE = ("Each case builds an optimiser with 0-3 constraints, objectives or sector limits, then draws 6-16 steps: deep-copy an unsolved "
        "node (copies of copies included), add a constraint/objective/sector limit to one node, set weights, optimise or re-optimise "
        "one node. Every optimisation is compared with an object built from scratch with that node's own additions only; after "
        "every step all other nodes' weights and reports must be unchanged, and unsolved nodes must still accept additions.")
MIN = {"chk:copy-outcome": 400, "chk:others-weights": 1500, "chk:still-open": 200}
ASSUMES = ["the solver is deterministic up to its tolerance"]


class Node:
    def __init__(self, o, ops, parent=None):
        self.o, self.ops, self.parent = o, list(ops), parent
        self.method, self.hist, self.snap = None, [], (None, None)


def run_case(ctx):
    rng = ctx.rng
    if ctx.kind == "hist":
        kind = str(rng.choice(["semi", "cvar", "cdar"]))
        Q = Panel(ctx, kind, neutral=False, hi=5, ncons=int(rng.integers(0, 2)))
        P, make, risk = Q.P, Q.make, Q.risk
        make()
    else:
        kind = "ef"
        P = gen.Problem(rng, solver=[None, "CLARABEL", "ECOS"][int(rng.choice(3, p=[0.1, 0.65, 0.25]))], neutral=False,
                        nobj=0 if ctx.kind == "sharpe" else int(rng.choice([0, 1], p=[0.7, 0.3])), convex=ctx.kind != "sharpe",
                        hi=7, cov_kind=str(rng.choice(["factor", "wishart", "block"])))
        make, risk = P.ef, lambda w: ref.vol(w, P.S)
    ctx.note(problem=P.describe(), risk=kind)
    mu_a, ra = float(P.a @ P.mu), max(float(risk(P.a)), 1e-4)

    def draw_method():
        ms = []
        if kind == "ef":
            ms = ["min_volatility", "max_quadratic_utility", "efficient_return", "efficient_risk", "convex_objective"]
            if mu_a > 0.01:
                ms += ["max_sharpe"] * (8 if ctx.kind == "sharpe" else 2)
        else:
            ms = [SPEC[kind]["minimise"], "efficient_risk", "convex_objective"]
            t = max(mu_a - 0.01, 1e-4)
            if t < mu_a:
                ms += ["efficient_return"] * 2
            if kind == "semi":
                ms.append("max_quadratic_utility")
        return str(rng.choice(ms))

    def draw_args(m):
        if m == "max_sharpe":
            return dict(risk_free_rate=float(rng.choice([0.0, mu_a - 0.008])))
        if m == "max_quadratic_utility":
            return dict(risk_aversion=float(rng.choice([0.5, 1, 3])))
        if m == "efficient_return":
            t = mu_a - float(rng.uniform(0, 0.05))
            return dict(target_return=float(max(t, 1e-4) if kind != "ef" else t))
        if m == "efficient_risk":
            return {"t": float(ra * rng.uniform(1.05, 2))}
        if m == "convex_objective":
            return {"k": float(rng.choice([0.5, 1.0, 2.0]))}
        return {}

    def call(o, m, a):
        if m == "convex_objective":
            return o.convex_objective(lambda w, k: k * cp.sum_squares(w) + 0.1 * cp.norm(w, 1), k=a["k"])
        if m == "efficient_risk":
            return o.efficient_risk(a["t"])
        return getattr(o, m)(**a)

    def value(m, a, w, ops):
        """The objective the method stands for (None: weights only)."""
        ex = P.extra(w) + sum(op[1].value(w) for op in ops if op[0] == "obj")
        if m == "max_sharpe":
            return None if (P.objs or any(op[0] == "obj" for op in ops)) else -(w @ P.mu - a["risk_free_rate"]) / risk(w)
        if m == "max_quadratic_utility":
            return -float(w @ P.mu) + 0.5 * a["risk_aversion"] * risk(w) ** 2 + ex
        if m == "efficient_risk":
            return -float(w @ P.mu) + ex
        if m == "convex_objective":
            return a["k"] * float(w @ w) + 0.1 * float(np.abs(w).sum()) + ex
        return (risk(w) ** 2 if kind in ("ef", "semi") else risk(w)) + ex

    def apply(o, op):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op[0] == "con":
                o.add_constraint(op[1].written)
            elif op[0] == "obj":
                op[1].add(o)
            elif op[0] == "sec":
                o.add_sector_constraints(*op[1])
            elif op[0] == "setw":
                o.set_weights(op[1])

    def draw_op():
        u = rng.random()
        if u < 0.6:
            return ("con", gen.constraint(rng, P.a, P.S, P.lb, P.ub, convex=ctx.kind != "sharpe" and kind == "ef"))
        if u < 0.8 and kind == "ef" and ctx.kind != "sharpe":
            return ("obj", gen.objective(rng, P.n, P.S))
        if u < 0.92 or kind not in ("ef", "semi"):
            return ("sec", gen.sectors(rng, P.a, P.tk))
        w = rng.dirichlet(np.ones(P.n))
        return ("setw", {P.tk[int(i)]: float(w[int(i)]) for i in rng.permutation(P.n)})

    def viol(w, ops):
        v = P.violation(w)
        for op in ops:
            if op[0] == "con":
                v = max(v, op[1].viol(w))
            elif op[0] == "sec":
                A, b = gen.sector_cons(P.tk, *op[1])
                if len(b):
                    v = max(v, float(np.max(A @ w - b)))
        return v

    def open_eqs(ops):
        return sum(1 for op in ops if op[0] == "con" and "eq" in op[1].form)

    nodes = [Node(make(), [])]
    trace = []
    steps, copy_at = int(rng.integers(6, 17)), int(rng.integers(0, 4))
    for step in range(steps):
        unsolved = [x for x in nodes if x.method is None]
        acts = ["solve"] * (2 if any(x.hist for x in nodes) else 1)
        if unsolved:
            acts += ["copy"] * (3 if len(nodes) < 2 else 1 if len(nodes) < 6 else 0) + ["add"] * 3
        act = str(rng.choice(acts))
        if step <= copy_at and len(nodes) == 1:  # a first copy comes early, an optimisation at the latest at the end
            act = "copy" if step == copy_at else "add"
        elif step == steps - 1 and not any(x.hist for x in nodes):
            act = "solve"
        if act == "copy":
            i = nodes.index(unsolved[int(rng.integers(len(unsolved)))])
            c = Node(nodes[i].o.deepcopy(), nodes[i].ops, i)
            c.snap = nodes[i].snap
            nodes.append(c)
            ctx.check(c.o is not nodes[i].o, "same-object")
            same_w, same_p = same(nodes[i].snap, snapshot(c.o, kind))
            ctx.check(same_w and same_p, "copy-state", "the copy reports other weights than the original")
            who, what = len(nodes) - 1, "copy of %d" % i
        elif act == "add":
            x = unsolved[int(rng.integers(len(unsolved)))]
            who = nodes.index(x)
            op = draw_op()
            if op[0] == "con" and "eq" in op[1].form and (open_eqs(x.ops) or P.n < 4 or any("eq" in c.form for c in P.cons)):
                continue
            _, err = attempt(lambda: apply(x.o, op))
            ctx.check(err is None, "still-open", "an unsolved optimiser refused %s (%s) after %r" % (op[0], err, trace[-6:]))
            x.ops.append(op)
            x.snap = snapshot(x.o, kind)
            what = "add %s" % op[0]
        else:
            x = nodes[int(rng.integers(len(nodes)))]
            who = nodes.index(x)
            m = x.method or draw_method()
            if x.method in ("max_sharpe", "convex_objective", "min_volatility", "min_semivariance", "min_cvar", "min_cdar"):
                continue
            a = draw_args(m)
            what = "%s%r" % (m, a)
            r, err = attempt(lambda: call(x.o, m, a))
            st = ST.status
            x.method = m
            x.hist.append((m, a))
            with hooks.unmonitored():
                fresh = make()
                for op in x.ops:
                    apply(fresh, op)
                fr, ferr = attempt(lambda: call(fresh, m, a))
            ctx.count("solves")
            ctx.count("solved:" + m)
            if (err is None) != (ferr is None):
                # on the edge of attainability (or of the solver's ability) only clear disagreement counts
                edge = "inaccurate" in str(err) + str(ferr) or P.solver is None or len(x.hist) > 1
                if edge:
                    ctx.count("edge")
                else:
                    ctx.check(False, "copy-outcome", "node %d %s: %s, but a fresh optimiser: %s" % (who, what, err or "solved", ferr or "solved"),
                              trace=trace, problem=P.describe())
                break
            if err is None:
                w, fw = P.port(r), P.port(fr)
                ok = np.allclose(w, fw, atol=1e-5, rtol=0)
                if not ok:
                    va, vb = value(m, a, w, x.ops), value(m, a, fw, x.ops)
                    tol = 2e-4 if P.solver is not None and st == "optimal" else 2e-2
                    if va is not None:
                        ok = abs(va - vb) <= tol * max(abs(vb), 1e-3) + (1e-5 * 252 / 100 if kind == "semi" else 1e-6) and \
                            viol(w, x.ops) <= hooks.tol_now() * 5 * max(1.0, np.abs(w).sum()) + 1e-5
                    elif P.solver is None:
                        ok = np.allclose(w, fw, atol=0.05)
                ctx.check(ok, "copy-outcome", "node %d %s differs from a fresh optimiser by %.3g" % (who, what, np.abs(w - fw).max()),
                          trace=trace, w=w, fresh=fw, ops=[(op[0], getattr(op[1], "form", None)) for op in x.ops], problem=P.describe(), status=st)
                perf, fperf = snapshot(x.o, kind)[1], snapshot(fresh, kind)[1]
                if ok and np.allclose(w, fw, atol=1e-7):
                    ctx.check(all((p is None) == (q is None) and (p is None or abs(p - q) <= 1e-4 * max(1, abs(q))) for p, q in zip(perf, fperf)),
                              "copy-report", "node %d after %s reports %r, a fresh optimiser %r" % (who, what, perf, fperf), trace=trace)
            x.snap = snapshot(x.o, kind)
        trace.append((who, what))
        ctx.event("step", node=who, what=what)
        for i, y in enumerate(nodes):
            if i == who:
                continue
            now = snapshot(y.o, kind)
            sw, sp = same(y.snap, now)
            ctx.check(sw, "others-weights", "%s on node %d changed the weights of node %d" % (what, who, i), trace=trace)
            ctx.check(sp, "others-report", "%s on node %d changed the report of node %d: %r to %r" % (what, who, i, y.snap[1], now[1]), trace=trace)
    if len(nodes) < 2 or not any(x.hist for x in nodes):
        raise Skip("no copy or no optimisation drawn")
    depth = [0]
    for x in nodes[1:]:
        depth.append(depth[x.parent] + 1)
    ctx.sig(kind, len(nodes), max(depth), ",".join(sorted({x.method or "-" for x in nodes})), len(P.cons), bool(P.sec), P.solver)
