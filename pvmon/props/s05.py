"""S05 Cleaning, saving and setting weights: recomputed from the stored weights, files read back with
independent readers (standard csv/json/literal_eval)."""

import ast
import csv
import json
import shutil
import tempfile

from .common import *

BUDGET = {"quick": {"clean": 5800, "save": 4140, "set": 4140, "mixed": 1660},
          "thorough": {"clean": 116000, "save": 82800, "set": 82800, "mixed": 33200}}
RULE = ("Each case takes one optimiser class with stored weights drawn around the cleaning cutoff (exactly at it, one ulp to each side, "
        "rounding ties, shorts, tiny, zero, signed zero), from set_weights in a shuffled order, direct assignment, or a real "
        "optimisation. clean: cutoff/rounding incl. None and invalid ones against a per-element reference. save: csv/json/txt files "
        "(any case, dots in the path, overwriting) read back with independent readers. set: shuffled, extra, missing labels. mixed: "
        "several of these in sequence on one object.")
MIN = {"chk:clean-values": 500, "chk:file-values": 300, "chk:set-values": 300, "chk:stored-unchanged": 1000}
ASSUMES = ["labels are strings or integers (what json can hold)"]


def optimiser(ctx, tk):
    import pypfopt
    from pypfopt.base_optimizer import BaseConvexOptimizer, BaseOptimizer

    rng, n = ctx.rng, len(tk)
    S, _ = gen.covariance(rng, n, "wishart")
    mu = np.sort(rng.normal(0.1, 0.1, n)) + 1e-3 * np.arange(n)
    mu = rng.permutation(mu)
    R, _ = gen.returns_panel(rng, n, 40, tk)
    k = str(rng.choice(["base", "convex", "ef", "cla", "hrp", "bl", "semi", "cvar", "cdar"], p=[0.15, 0.1, 0.2, 0.1, 0.1, 0.1, 0.15, 0.05, 0.05]))
    if k == "base":
        return k, BaseOptimizer(n, tickers=tk)
    if k == "convex":
        return k, BaseConvexOptimizer(n, tickers=tk)
    if k == "ef":
        return k, pypfopt.EfficientFrontier(pd.Series(mu, index=tk), pd.DataFrame(S, index=tk, columns=tk), weight_bounds=(-1, 1), solver="CLARABEL")
    if k == "cla":
        return k, pypfopt.CLA(pd.Series(mu, index=tk), pd.DataFrame(S, index=tk, columns=tk))
    if k == "hrp":
        return k, pypfopt.HRPOpt(R)
    if k == "bl":
        return k, pypfopt.BlackLittermanModel(pd.DataFrame(S, index=tk, columns=tk), pi="equal", absolute_views={tk[0]: 0.1})
    cls = {"semi": pypfopt.EfficientSemivariance, "cvar": pypfopt.EfficientCVaR, "cdar": pypfopt.EfficientCDaR}[k]
    return k, cls(pd.Series(mu, index=tk), R, weight_bounds=(-1, 1), solver="CLARABEL")


def values(rng, n, cutoff):
    """Weights around the cutoff and around rounding ties."""
    w = rng.normal(0.1, 0.3, n)
    for i in range(n):
        u = rng.random()
        c = float(cutoff)
        if u < 0.3:
            w[i] = float(rng.choice([c, np.nextafter(c, 0), np.nextafter(c, 1), c * 0.999, c * 1.001, c / 2, 2 * c])) * rng.choice([-1, 1])
        elif u < 0.4:
            w[i] = float(rng.choice([0.0, -0.0, 1e-16, -1e-12, 5e-6, 1.0, -1.0, 0.5]))
        elif u < 0.55:
            d = int(rng.integers(1, 7))
            w[i] = (int(rng.integers(-300, 300)) + 0.5) / 10.0**d
        elif u < 0.65:
            w[i] = float(rng.uniform(-1, 1) * 10 ** rng.uniform(-7, 3))
    return w


def clean_ref(w, cutoff, rounding):
    out = np.array([0.0 if abs(x) < cutoff else x for x in w])
    return out if rounding is None else np.array([float(np.round(x, rounding)) for x in out])


def near(a, b, rounding):
    """Equal as rounded numbers (ties may go either way by an ulp of the decimal)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-13)


NOSET = ("cla", "cvar", "cdar")


def no_set(ctx, o, tk, w):
    before = None if o.weights is None else np.array(o.weights, copy=True)
    try:
        o.set_weights({t: float(x) for t, x in zip(tk, w)})
        ctx.check(np.array_equal(np.asarray(o.weights, float), w), "set-values")
    except NotImplementedError:
        ctx.check((o.weights is None) if before is None else np.array_equal(np.asarray(o.weights), before), "stored-unchanged")
        ctx.count("set_not_supported")


def put(ctx, o, tk, w, kind):
    """Store weights through one of the public ways."""
    rng = ctx.rng
    if kind in NOSET:
        no_set(ctx, o, tk, w)
        o.weights = np.array(w)
    elif rng.random() < 0.75:
        order = rng.permutation(len(tk))
        d = {tk[int(i)]: float(w[int(i)]) for i in order}
        if rng.random() < 0.2:
            d["not-an-asset"] = 0.7
        if rng.random() < 0.3:
            d = pd.Series(d) if not any(isinstance(t, int) for t in tk) else dict(d)
        _, err = attempt(lambda: o.set_weights(d))
        ctx.check(err is None, "set-refused", err)
        ctx.check(np.array_equal(np.asarray(o.weights, float), w), "set-values", "set_weights of %r stored %r" % (d, o.weights), tickers=tk)
    else:
        o.weights = np.array(w)


def check_clean(ctx, o, tk, kw, cutoff, rounding):
    before = np.array(o.weights, copy=True)
    r, err = attempt(lambda: o.clean_weights(**kw))
    if not ctx.check(err is None and isinstance(r, dict), "clean-refused", err):
        return None
    ctx.check(list(r) == list(tk), "clean-labels", "labels %r for %r" % (list(r)[:5], tk[:5]))
    want = clean_ref(before, cutoff, rounding)
    got = np.array(list(r.values()), float)
    ok = near(got, want, rounding)
    ctx.check(ok, "clean-values", "cutoff %r rounding %r: %r for %r" % (cutoff, rounding, got, before), want=want)
    if ok:
        z = np.abs(before) < cutoff
        ctx.check(np.all(got[z] == 0), "clean-zeros")
        if rounding is None:
            ctx.check(np.array_equal(got[~z], before[~z]), "clean-exact", "kept weights changed without rounding")
        ctx.count("cut", int(z.sum()))
        ctx.count("kept", int((~z).sum()))
    ctx.check(np.array_equal(np.asarray(o.weights), before) and o.weights is not None, "stored-unchanged", "clean_weights changed the stored weights", before=before, after=o.weights)
    return r


def do_clean(ctx, o, tk, kind):
    rng = ctx.rng
    cutoff = float(rng.choice([1e-4, 1e-4, 1e-3, 0.01, 0.1, 0.0, 1e-8, 0.5]))
    rounding = [5, 5, 1, 2, 3, 8, 12, None][int(rng.integers(8))]
    w = values(rng, len(tk), cutoff or 1e-4)
    put(ctx, o, tk, w, kind)
    kw = {}
    if cutoff != 1e-4 or rng.random() < 0.5:
        kw["cutoff"] = cutoff
    if rounding != 5 or rng.random() < 0.5:
        kw["rounding"] = rounding
    check_clean(ctx, o, tk, kw, cutoff, rounding)
    if rng.random() < 0.4:
        before = np.array(o.weights, copy=True)
        bad = [0, -1, 2.5, 1.0, "3", -5][int(rng.integers(6))]
        try:
            o.clean_weights(rounding=bad)
            err = None
        except ValueError:
            err = "value"
        ctx.check(err is not None, "bad-rounding", "rounding=%r accepted" % (bad,))
        ctx.check(np.array_equal(np.asarray(o.weights), before), "stored-unchanged", "a refused clean_weights changed the stored weights")
    ctx.sig("clean", cutoff, rounding, len(tk))


def read(path, ext, tk):
    """(labels as strings, floats) by an independent reader."""
    if ext == "csv":
        with open(path, newline="", encoding="utf-8") as f:
            rows = [r for r in csv.reader(f) if r]
        return [r[0] for r in rows], [float(r[1]) for r in rows], all(len(r) == 2 for r in rows)
    if ext == "json":
        with open(path) as f:
            d = json.load(f)
        return list(d), [float(v) for v in d.values()], isinstance(d, dict)
    with open(path) as f:
        d = ast.literal_eval(f.read())
    return [str(k) for k in d], [float(v) for v in d.values()], isinstance(d, dict) and [type(k) for k in d] == [type(t) for t in tk]


def do_save(ctx, o, tk, kind):
    rng = ctx.rng
    w = values(rng, len(tk), 1e-4)
    put(ctx, o, tk, w, kind)
    d = tempfile.mkdtemp(prefix="pvmon-")
    cwd = os.getcwd()
    try:
        sub = os.path.join(d, str(rng.choice(["x", "a.csv", "b.json.d", "we ights"])))
        os.mkdir(sub)
        for _ in range(int(rng.integers(1, 3))):
            before = np.array(o.weights, copy=True)
            ext = str(rng.choice(["csv", "json", "txt", "bad"], p=[0.3, 0.3, 0.25, 0.15]))
            stem = str(rng.choice(["w", "weights.v2", "json", "my.csv.backup", "txt"]))
            if ext == "bad":
                name = stem + str(rng.choice([".xml", ".xlsx", ".csvx", ".jsn", ".parquet", ".", ".tx"]))
                path = os.path.join(sub, name)
                try:
                    o.save_weights_to_file(path)
                    err = None
                except NotImplementedError:
                    err = "refused"
                ctx.check(err is not None, "bad-format", "%s accepted" % name)
                ctx.check(not os.path.exists(path), "bad-format-file", "refused format %s left a file" % name)
            else:
                e2 = ext if rng.random() < 0.7 else ext.upper() if rng.random() < 0.5 else ext.title()
                path = os.path.join(sub, stem + "." + e2)
                if rng.random() < 0.3:  # an older, longer file is replaced as a whole
                    with open(path, "w") as f:
                        f.write("old,0.123\n" * 60)
                if rng.random() < 0.25:
                    os.chdir(sub)
                    if e2 == "csv" and rng.random() < 0.5:
                        path = os.path.join(sub, "weights.csv")
                        o.save_weights_to_file()
                    else:
                        o.save_weights_to_file(stem + "." + e2)
                    os.chdir(cwd)
                else:
                    o.save_weights_to_file(path)
                try:
                    labels, vals, shape = read(path, ext, tk)
                except Exception as ex:
                    ctx.check(False, "file-unreadable", "%s: %s" % (ext, ex), content=open(path).read()[:300] if os.path.exists(path) else None)
                    continue
                want = clean_ref(before, 1e-4, 5)
                ctx.check(shape, "file-shape", "%s file is not label/weight pairs" % ext)
                ctx.check(labels == [str(t) for t in tk], "file-labels", "%s: %r for %r" % (ext, labels[:6], tk[:6]))
                ctx.check(near(vals, want, 5), "file-values", "%s file holds %r for %r" % (ext, vals, before), want=want)
                ctx.check(sorted(os.listdir(sub)).count(os.path.basename(path)) == 1, "file-place")
                ctx.sig("save", e2, stem, len(tk), type(tk[0]).__name__)
            ctx.check(np.array_equal(np.asarray(o.weights), before), "stored-unchanged", "save_weights_to_file changed the stored weights")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def do_set(ctx, o, tk, kind):
    rng, n = ctx.rng, len(tk)
    w = values(rng, n, 1e-4)
    if rng.random() < 0.2:
        w = rng.integers(0, 2, n).astype(float)
    order = [int(i) for i in rng.permutation(n)]
    d = {tk[i]: (int(w[i]) if w[i] == int(w[i]) and rng.random() < 0.3 else float(w[i])) for i in order}
    extra = rng.random() < 0.2
    if extra:
        d["zzz-other"] = 0.25
    frozen = dict(d)
    _, err = attempt(lambda: o.set_weights(d))
    ctx.check(err is None, "set-refused", err)
    got = o.weights
    ctx.check(got is not None and np.array_equal(np.asarray(got, float), w), "set-values", "set_weights(%r) stored %r for assets %r" % (frozen, got, tk))
    ctx.check(d == frozen and list(d) == list(frozen), "set-argument", "set_weights changed its argument")
    c = check_clean(ctx, o, tk, dict(cutoff=0.0, rounding=None), 0.0, None)
    # a cleaned portfolio can be set again and stays what it was
    if c is not None:
        c2, err = attempt(lambda: o.clean_weights())
        o.set_weights(c2)
        ctx.check(np.allclose(np.asarray(o.weights, float), clean_ref(w, 1e-4, 5), rtol=1e-12, atol=1e-13), "set-cleaned", "set_weights(clean_weights()) stored %r" % (o.weights,))
        again = dict(o.clean_weights())
        ctx.check(near(list(again.values()), list(c2.values()), 5), "clean-idempotent", "cleaning twice differs")
    # performance follows the weights that were set
    if kind in ("ef", "semi") and abs(np.asarray(o.weights, float)).sum() > 1e-3:
        before = np.array(o.weights, copy=True)
        p, err = attempt(lambda: o.portfolio_performance())
        if err is None:
            ctx.close(p[0], float(np.asarray(o.expected_returns, float).ravel() @ before), "set-performance", rtol=1e-9, atol=1e-9)
        ctx.check(np.array_equal(np.asarray(o.weights), before), "stored-unchanged", "portfolio_performance changed the stored weights")
    # a missing label cannot be filled in
    if rng.random() < 0.4:
        before = np.array(o.weights, copy=True)
        d2 = dict(frozen)
        d2.pop(tk[int(rng.integers(n))])
        try:
            o.set_weights(d2)
            err = None
        except (KeyError, ValueError):
            err = "refused"
        ctx.check(err is not None, "set-missing", "set_weights accepted weights lacking an asset")
        ctx.check(np.array_equal(np.asarray(o.weights), before), "stored-unchanged", "a refused set_weights changed the stored weights")
    ctx.sig("set", kind, n, extra, type(tk[0]).__name__)


def run_case(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9)) if rng.random() < 0.9 else int(rng.integers(9, 30))
    n = max(n, 2)
    tk, tkind = gen.tickers(rng, n, str(rng.choice(["random", "alpha", "int", "lookalike"])))
    kind, o = optimiser(ctx, tk)
    ctx.note(cls=kind, n=n, tickers=tkind)
    if rng.random() < 0.3:  # nothing to clean or save yet
        for f in ("clean_weights", "save"):
            d = None
            try:
                if f == "save":
                    d = tempfile.mkdtemp(prefix="pvmon-")
                    o.save_weights_to_file(os.path.join(d, "w.csv"))
                else:
                    o.clean_weights()
                err = None
            except AttributeError:
                err = "refused"
            finally:
                if d:
                    empty = not os.listdir(d)
                    shutil.rmtree(d)
            ctx.check(err is not None, "unsolved-refused", "%s on an unsolved optimiser" % f)
            if f == "save":
                ctx.check(empty, "unsolved-file", "an unsolved optimiser wrote a weights file")
    if rng.random() < 0.4:  # after a real optimisation
        r, err = attempt({"ef": lambda: o.min_volatility(), "cla": lambda: o.min_volatility(), "hrp": lambda: o.optimize(),
                          "bl": lambda: o.bl_weights(), "semi": lambda: o.min_semivariance(),
                          "cvar": lambda: o.min_cvar(), "cdar": lambda: o.min_cdar(),
                          "convex": lambda: o.convex_objective(lambda w: cp.sum_squares(w - 0.2))}.get(kind, lambda: None))
        if err is None and kind != "base":
            check_clean(ctx, o, tk, {}, 1e-4, 5)
            ctx.count("after_optimisation")
    if kind in NOSET and ctx.kind == "set":
        no_set(ctx, o, tk, values(rng, n, 1e-4))
        do_clean(ctx, o, tk, kind)
    elif ctx.kind == "clean":
        do_clean(ctx, o, tk, kind)
    elif ctx.kind == "save":
        do_save(ctx, o, tk, kind)
    elif ctx.kind == "set":
        do_set(ctx, o, tk, kind)
    else:
        for i in rng.choice(3, int(rng.integers(2, 5))):
            [lambda: do_clean(ctx, o, tk, kind), lambda: do_save(ctx, o, tk, kind), lambda: do_set(ctx, o, tk, kind)][int(i) % (2 if kind in NOSET else 3)]()
