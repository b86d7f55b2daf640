"""D03 Long/short allocation: split of the book, labels and order, independence of earlier calls."""

from .alloc import *

BUDGET = {"quick": {"split": 2820, "order": 1560, "history": 940, "side": 1560},
          "thorough": {"split": 56400, "order": 31200, "history": 18800, "side": 31200}}
RULE = ("Each case draws a weight mapping with shorts (net, gross, cleaned, with zeros), prices, value, short ratio and reinvestment flag; "
        "the shares and cash of each side are recomputed from the inputs, compared with stand-alone long-only books, and with the same "
        "request in another order or after other calls on the same object.")
MIN = {"chk:ls-conservation": 300, "chk:ls-floor": 150, "chk:same-side": 100, "chk:order": 100, "chk:after-other": 60}
ASSUMES = []


def options(rng):
    kw, call = {}, {}
    if rng.random() < 0.5:
        kw["short_ratio"] = float(rng.choice([0.3, 0.5, 1.0, 0.05, 0.0, float(rng.uniform(0.05, 2))]))
        if rng.random() < 0.2:
            kw["short_ratio"] = int(rng.integers(0, 3))
    if rng.random() < 0.5:
        call["reinvest"] = bool(rng.random() < 0.7)
    if rng.random() < 0.1:
        call["verbose"] = True
    return kw, call


def method(rng):
    return ("greedy_portfolio", {}) if rng.random() < 0.65 else ("lp_portfolio", {"solver": "SCIPY"})


def run(ctx, o, m, call, mk):
    if m == "greedy_portfolio":
        mk = {}
    r, err = attempt(lambda: getattr(o, m)(**call, **mk))
    if err is not None:
        raise Skip("solver: " + err)
    return r


def sides(b, kw, call):
    w = b.w
    L, S = np.where(w >= 0, w, 0), np.where(w < 0, -w, 0)
    sr = kw.get("short_ratio", S.sum())
    sv = b.V * sr
    lv = b.V + (sv if call.get("reinvest") else 0)
    return L / (L.sum() or 1), S / S.sum(), lv, sv


def run_case(ctx):
    globals()["k_" + ctx.kind](ctx, ctx.rng)


def k_split(ctx, rng):
    b = Book(rng, shorts=True, n=int(rng.integers(2, 10)))
    kw, call = options(rng)
    m, mk = method(rng)
    ctx.note(**b.describe(), options=kw, call=call, method=m)
    alloc, left = run(ctx, b.da(**kw), m, call, mk)
    x = shares(b, alloc)
    p = np.array([float(b.prices[t]) for t in b.tk])
    L, S, lv, sv = sides(b, kw, call)
    it = 2e-6 * p.sum() if m == "lp_portfolio" else 0
    ctx.check(all(t in b.weights for t in alloc) and (x == np.rint(x)).all() and 0 not in alloc.values(), "ls-whole", dict(alloc))
    ctx.check(not ((x > 0) & ((b.w <= 0) if m == "greedy_portfolio" else (b.w < 0))).any() and not ((x < 0) & (b.w >= 0)).any(), "ls-sign", "shares %r for weights %r" % (x, b.w))
    cl, cs = float(p @ np.maximum(x, 0)), float(p @ np.maximum(-x, 0))
    ctx.check(cl <= lv * (1 + 1e-8) + it, "ls-budget-long", "%.9g of %.9g" % (cl, lv))
    ctx.check(cs <= sv * (1 + 1e-8) + it, "ls-budget-short", "%.9g of %.9g" % (cs, sv))
    ctx.close(float(left), lv + sv - cl - cs, "ls-conservation", rtol=0, atol=1e-7 * (lv + sv), problem=b.describe(), options=kw, call=call)
    if m == "greedy_portfolio":
        for side, wt, v in (("long", L, lv), ("short", S, sv)):
            xs = np.maximum(x if side == "long" else -x, 0)
            ctx.check((xs >= np.floor(wt * v / p * (1 - 1e-9))).all(), "ls-floor", "%s side holds %r, weights pay for %r" % (side, xs, wt * v / p),
                      weights=b.weights, prices=b.prices, options=kw, call=call)
    else:
        for side, wt, v in (("long", L, lv), ("short", S, sv)):
            on = wt > 0
            xs = np.maximum(x if side == "long" else -x, 0)[on]
            if not on.any() or v <= 0:
                continue
            r = ref.milp_alloc(wt[on], p[on], v)
            if r is not None:
                got = ref.lp_alloc_objective(xs, wt[on], p[on], v)
                if got - r[0] > 1.3e-4 * v:
                    r2, err = attempt(lambda: b.da(**kw).lp_portfolio(solver="ECOS_BB", **call))
                    x2 = shares(b, r2[0]) if err is None else x
                    g2 = ref.lp_alloc_objective(np.maximum(x2 if side == "long" else -x2, 0)[on], wt[on], p[on], v)
                    if g2 <= r[0] + 2e-3 * v:
                        ctx.count("solver_trouble")
                        raise Skip("solver error")
                ctx.check(got - r[0] <= 1.3e-4 * v, "ls-optimal", "%s side: %.9g, best is %.9g" % (side, got, r[0]),
                          weights=b.weights, prices=b.prices, options=kw, call=call, alloc=dict(alloc))
    ctx.event("sides", long=cl, short=cs, left=float(left))
    ctx.sig(*b.signature(m, tuple(sorted(call)), bool(kw)))


def k_side(ctx, rng):
    """Each side is what a stand-alone long-only book of that side gets."""
    b = Book(rng, shorts=True, n=int(rng.integers(2, 10)))
    kw, call = options(rng)
    alloc, left = b.da(**kw).greedy_portfolio(**call)
    for f in (1 - 1e-9, 1 + 1e-9):
        if dict(b.da(**dict(kw, total_portfolio_value=b.V * f)).greedy_portfolio(**call)[0]) != dict(alloc):
            raise Skip("on a rounding edge")
    L, S, lv, sv = sides(b, kw, call)
    tot, lf = {}, 0.0
    for sgn, wt, v in ((1, L, lv), (-1, S, sv)):
        keep = (b.w >= 0) if sgn == 1 else (b.w < 0)
        if not wt.any() or v <= 0:
            lf += v
            continue
        a, l = DiscreteAllocation({t: float(x) for t, x, k in zip(b.tk, wt, keep) if k}, b.prices, v).greedy_portfolio()
        tot.update({t: sgn * x for t, x in a.items()})
        lf += l
    pos = b.w[b.w > 0]
    if len(set(np.abs(b.w))) == b.n and b.pkind not in ("share", "same"):
        ctx.check(dict(alloc) == tot, "same-side", "%r instead of %r" % (dict(alloc), tot), weights=b.weights, prices=b.prices, options=kw, call=call)
    ctx.close(float(left), lf, "same-side-cash", rtol=1e-7, atol=1e-7 * b.V) if dict(alloc) == tot else None
    ctx.check(len(pos) >= 0 and set(tot) <= set(b.weights), "same-side-assets")
    ctx.sig("side", *b.signature(bool(call)))


def reorder(rng, b):
    c = object.__new__(Book)
    c.__dict__.update(b.__dict__)
    o = [int(i) for i in rng.permutation(b.n)]
    c.weights = {b.tk[i]: b.weights[b.tk[i]] for i in o}
    c.prices = b.prices.iloc[[int(i) for i in rng.permutation(len(b.prices))]]
    return c


def objective(b, alloc):
    p = np.array([float(b.prices[t]) for t in b.tk])
    return ref.lp_alloc_objective(shares(b, alloc), b.w, p, b.V)


def k_order(ctx, rng):
    shorts = bool(rng.random() < 0.5)
    b = Book(rng, shorts=shorts, n=int(rng.integers(2, 9)), wkind="dirichlet", pkind=str(rng.choice(["cents", "spread", "dear", "cheap"])))
    kw, call = options(rng) if shorts else ({}, {})
    m, mk = method(rng)
    if m == "lp_portfolio" and b.pkind == "cheap":
        m = "greedy_portfolio"
    c = reorder(rng, b)
    a1, l1 = run(ctx, b.da(**kw), m, call, mk)
    a2, l2 = run(ctx, c.da(**kw), m, call, mk)
    if m == "greedy_portfolio":
        if len(set(np.abs(b.w))) < b.n:
            raise Skip("equal weights")
        ctx.check(dict(a1) == dict(a2), "order", "%r, in another order %r" % (dict(a1), dict(a2)), weights=b.weights, prices=b.prices)
        ctx.close(float(l1), float(l2), "order-cash", rtol=1e-8, atol=1e-8 * b.V)
    elif not shorts:
        best = min(objective(b, a1), objective(b, a2))
        if abs(objective(b, a1) - objective(b, a2)) > 3e-4 * b.V and all(
                objective(b, run(ctx, y.da(), m, {}, {"solver": "ECOS_BB"})[0]) <= best + 2e-3 * b.V for y in (b, c)):
            ctx.count("solver_trouble")
            raise Skip("solver error")
        ctx.check(abs(objective(b, a1) - objective(b, a2)) <= 3e-4 * b.V, "order-lp", "%r (%.9g) against %r (%.9g)" % (
            dict(a1), objective(b, a1), dict(a2), objective(b, a2)), weights=b.weights, prices=b.prices)
    else:
        ctx.check(set(t for t, x in a1.items() if x < 0) <= {t for t, w in b.weights.items() if w < 0}, "order-sign")
    ctx.sig("order", *b.signature(m, shorts))


def k_history(ctx, rng):
    """Results do not depend on what was called before on the object."""
    shorts = bool(rng.random() < 0.4)
    b = Book(rng, shorts=shorts, n=int(rng.integers(2, 7)), wkind="dirichlet", pkind=str(rng.choice(["cents", "spread", "dear"])))
    kw, _ = options(rng) if shorts else ({}, {})
    fresh = {}
    for m in ("greedy_portfolio", "lp_portfolio"):
        for re in (False, True):
            fresh[m, re] = run(ctx, b.da(**kw), m, {"reinvest": re}, {"solver": "SCIPY"})
    o = b.da(**kw)
    log = []
    for _ in range(int(rng.integers(2, 6))):
        m = str(rng.choice(["greedy_portfolio", "lp_portfolio"]))
        re = bool(rng.random() < 0.5)
        log.append((m, re))
        a, l = run(ctx, o, m, {"reinvest": re}, {"solver": "SCIPY"})
        fa, fl = fresh[m, re]
        if m == "greedy_portfolio" or dict(a) == dict(fa):
            ctx.check(dict(a) == dict(fa), "after-other", "%r, fresh %r after %r" % (dict(a), dict(fa), log), weights=b.weights, prices=b.prices)
            ctx.close(float(l), float(fl), "after-other-cash", rtol=1e-8, atol=1e-8 * b.V)
        elif not shorts:
            best = min(objective(b, a), objective(b, fa))
            if abs(objective(b, a) - objective(b, fa)) > 3e-4 * b.V and abs(
                    objective(b, run(ctx, o, m, {}, {"solver": "ECOS_BB"})[0]) - best) <= 2e-3 * b.V:
                ctx.count("solver_trouble")
                raise Skip("solver error")
            ctx.check(abs(objective(b, a) - objective(b, fa)) <= 3e-4 * b.V, "after-other-lp", "%r, fresh %r after %r" % (dict(a), dict(fa), log),
                      weights=b.weights, prices=b.prices)
    ctx.sig("history", *b.signature(shorts, "-".join(x[0][0] + str(x[1])[0] for x in log[:3])))
