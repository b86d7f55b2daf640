"""S03 Inputs are never mutated, objects do not interfere, computations repeat.

A session interleaves the steps of several independent client scripts over one shared pool of
data objects.  Monitors: digests of every argument around every call, digests of everything
ever passed after every later call, digest of the whole pool after every step; and each
script's outcomes against the same script run alone on deep copies of the pool."""

import copy
import sys
import threading

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

from .common import *

BUDGET = {"quick": {"session": 420, "pair": 320, "threads": 140},
          "thorough": {"session": 8400, "pair": 6400, "threads": 2200}}
RULE = ("session: 3-6 client scripts (estimators, every optimiser, Black-Litterman, allocation, plotting, files, objective "
        "functions) drawn over one pool of shared inputs and interleaved step by step; pair: two optimisers of the same class "
        "from the same inputs, interleaved; threads: scripts running at once in threads of their own with frequent switches. "
        "Outcomes must equal those of each script alone on deep copies; every data object "
        "passed to the library must keep its digest for the rest of the session.")
MIN = {"chk:isolated": 500, "chk:thread-isolated": 500, "thread_overlaps": 40, "chk:pool-digest": 500, "chk:input-mutated": 500}
ASSUMES = ["solvers are deterministic for identical inputs (OSQP's wall-clock step adaptation is switched off by the harness)",
           "cvxpy (whose DPP scope is a process-wide flag) and matplotlib are not thread-safe: at most one thread at a time uses cvxpy"]


# ------------------------------------------------------------------ the shared pool


def make_pool(rng):
    n = int(rng.integers(3, 8))
    tk, _ = gen.tickers(rng, n, str(rng.choice(["random", "alpha", "lookalike"])))
    prices, _ = gen.price_panel(rng, n, int(rng.choice([40, 70])), tk)
    rets = prices.pct_change().dropna(how="all")
    S, _ = gen.covariance(rng, n, str(rng.choice(["factor", "wishart", "block"])))
    mu, _ = gen.means(rng, n, "normal")
    mu[int(rng.integers(n))] = 0.25
    w = rng.dirichlet(np.ones(n))
    ls = rng.normal(1 / n, 0.3, n)
    ls[0] = abs(ls[0]) + 0.1
    lo = np.zeros(n)
    hi = np.full(n, float(rng.choice([0.6, 0.8, 1.0])))
    k = 2
    P = np.zeros((k, n))
    P[0, 0], P[0, 1] = 1, -1
    P[1, 2] = 1
    gaps = prices.copy()
    gaps.iloc[: len(gaps) // 4, 1] = np.nan
    bad = S.copy()
    bad[0, 1] = bad[1, 0] = 1.4 * np.sqrt(S[0, 0] * S[1, 1])
    order = rng.permutation(n)
    pool = dict(
        tk=list(tk), n=n, prices=prices, gaps=gaps, rets=rets, rets_np=rets.to_numpy(copy=True), S=pd.DataFrame(S, index=tk, columns=tk),
        S_np=S.copy(), bad=pd.DataFrame(bad, index=tk, columns=tk), mu=pd.Series(mu, index=tk, name="mu"), mu_np=mu.copy(),
        mu_list=[float(x) for x in mu], mu_col=mu.reshape(-1, 1).copy(),
        mkt=pd.DataFrame({"market": prices.mean(axis=1).to_numpy()}, index=prices.index), mkt_s=prices.mean(axis=1),
        caps={t: float(c) for t, c in zip(np.array(tk)[order], rng.uniform(1, 50, n))},
        caps_s=pd.Series(rng.uniform(1, 50, n), index=tk), views={tk[1]: 0.1, tk[0]: -0.05}, views_s=pd.Series({tk[2]: 0.08}),
        P=P, P_df=pd.DataFrame(P, columns=tk), Q=np.array([0.02, 0.09]), Q_col=np.array([[0.02], [0.09]]), Q_s=pd.Series([0.02, 0.09]),
        omega=np.diag([0.01, 0.02]), conf=[0.4, 0.8], conf_np=np.array([0.4, 0.8]),
        weights={t: float(x) for t, x in zip(np.array(tk)[order], w[order])}, ls={t: float(x) for t, x in zip(tk, ls)},
        wcopy=w.copy(), last=prices.iloc[-1].copy(), pair=(0, 1), pairs=[(float(a), float(b)) for a, b in zip(lo, hi)],
        arrays=(lo.copy(), hi.copy()), mat=np.column_stack([lo, hi]), mapper={t: ("x" if i % 2 else "y") for i, t in enumerate(tk)},
        slow={"x": 0.05}, shigh={"x": 0.9, "y": 0.9}, stdevs=np.sqrt(np.diag(S)), corr=pd.DataFrame(
            S / np.sqrt(np.outer(np.diag(S), np.diag(S))), index=tk, columns=tk), bench=rng.dirichlet(np.ones(n)),
        sopts={}, prior=pd.Series(mu * 0.5, index=tk), brets=rets.to_numpy(copy=True).mean(axis=1),
        scons=[{"type": "ineq", "fun": lambda w: 0.7 - w[0]}, {"type": "ineq", "fun": lambda w, c: w[1] + c, "args": (0.2,)}],
        scons1=[{"type": "eq", "fun": lambda w: np.sum(w) - 1.0}], opts_ecos={"max_iters": 300}, opts_cl={"max_iter": 300},
        sweep=np.linspace(0.2, 0.6, 4), sweep_l=[0.05, 0.1], rets_gaps=gaps.pct_change().iloc[1:].copy(), brets_s=rets.mean(axis=1),
        holdings=pd.Series(w.copy(), index=tk), last_more=pd.concat([prices.iloc[-1], pd.Series({"EXTRA-1": 12.5, "EXTRA-2": 0.7})]),
        fetch=pd.DataFrame(S.copy(), index=tk[::-1], columns=tk[::-1]))
    return pool


# ------------------------------------------------------------------ scripts: lists of steps(state, pool)


def s_ef(rng):
    from pypfopt import EfficientFrontier, objective_functions as of

    mu = str(rng.choice(["mu", "mu_np", "mu_list", "mu_col"]))
    S = str(rng.choice(["S", "S_np"]))
    b = str(rng.choice(["pair", "pairs", "arrays", "mat"]))
    solver = [None, "CLARABEL", "ECOS"][int(rng.choice(3, p=[0.3, 0.5, 0.2]))]
    lab = mu == "mu" or S == "S"

    def new(s, p):
        s["o"] = EfficientFrontier(p[mu], p[S], weight_bounds=p[b], solver=solver, solver_options=p[so])

    def deco(kind):
        def f(s, p):
            o = s["o"]
            if kind == "l2":
                o.add_objective(of.L2_reg, gamma=0.1)
            elif kind == "tc":
                o.add_objective(of.transaction_cost, w_prev=p["wcopy"], k=0.01)
            elif kind == "sec" and lab:
                o.add_sector_constraints(p["mapper"], p["slow"], p["shigh"])
            elif kind == "con":
                o.add_constraint(lambda w: w[0] <= 0.55)
            elif kind == "vec":
                o.add_constraint(lambda w: w <= p["mat"][:, 1] * 0.9)
        return f

    steps = [new] + [deco(str(rng.choice(["l2", "tc", "sec", "con", "vec"]))) for _ in range(int(rng.integers(0, 3)))]
    m = str(rng.choice(["minvol", "sharpe", "util", "ret", "risk", "convex", "nonconvex", "nonconvex2"]))
    so = {"CLARABEL": "opts_cl", "ECOS": "opts_ecos"}.get(solver, "sopts") if rng.random() < 0.5 else "sopts"
    sc, s1 = ("scons1", False) if rng.random() < 0.4 else ("scons", True)
    calls = {"minvol": lambda o, k, p: o.min_volatility(), "sharpe": lambda o, k, p: o.max_sharpe(0.01),
             "util": lambda o, k, p: o.max_quadratic_utility(1.0 + k), "ret": lambda o, k, p: o.efficient_return(0.02 + 0.02 * k),
             "risk": lambda o, k, p: o.efficient_risk(0.5 + 0.1 * k),
             "convex": lambda o, k, p: o.convex_objective(lambda w, c: cp.quad_form(w, c, assume_PSD=True) + cp.norm(w, 1), c=p["S_np"]),
             "nonconvex": lambda o, k, p: o.nonconvex_objective(lambda w, c: float(w @ c @ w), objective_args=(p["S_np"],),
                                                                initial_guess=p["wcopy"]),
             "nonconvex2": lambda o, k, p: o.nonconvex_objective(lambda w, c, m: float(w @ c @ w) - 0.1 * float(w @ m), (p["S_np"], p["mu_np"]),
                                                                 weights_sum_to_one=s1, constraints=p[sc])}
    steps.append(lambda s, p: calls[m](s["o"], 0, p))
    steps.append(lambda s, p: s["o"].portfolio_performance(risk_free_rate=0.01))
    if m in ("util", "ret", "risk", "nonconvex", "nonconvex2"):
        steps.append(lambda s, p: calls[m](s["o"], 1, p))
        steps.append(lambda s, p: s["o"].portfolio_performance())
    steps += [lambda s, p: s["o"].clean_weights(), lambda s, p: np.array(s["o"].weights)]
    return "ef:" + m, steps


def s_hist(rng):
    from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance

    cls = [EfficientSemivariance, EfficientCVaR, EfficientCDaR][int(rng.integers(3))]
    mu = str(rng.choice(["mu", "mu_np"]))
    R = str(rng.choice(["rets", "rets_np"]))
    b = str(rng.choice(["pair", "pairs", "arrays"]))
    m = str(rng.choice(["min", "ret", "risk"]))
    nm = {"EfficientSemivariance": "min_semivariance", "EfficientCVaR": "min_cvar", "EfficientCDaR": "min_cdar"}[cls.__name__]

    def new(s, p):
        s["o"] = cls(p[mu], p[R], weight_bounds=p[b], solver="CLARABEL", solver_options=p["sopts"])

    c = {"min": lambda o, k: getattr(o, nm)(), "ret": lambda o, k: o.efficient_return(0.03 + 0.02 * k),
         "risk": lambda o, k: o.efficient_risk(0.4 + 0.2 * k)}[m]
    steps = [new, lambda s, p: c(s["o"], 0), lambda s, p: s["o"].portfolio_performance()]
    if m != "min":
        steps += [lambda s, p: c(s["o"], 1), lambda s, p: s["o"].portfolio_performance()]
    return cls.__name__ + ":" + m, steps


def s_cla(rng):
    from pypfopt import CLA

    mu = str(rng.choice(["mu", "mu_np"]))
    S = str(rng.choice(["S", "S_np"]))
    b = str(rng.choice(["pair", "pairs", "arrays"]))

    def new(s, p):
        s["o"] = CLA(p[mu], p[S], weight_bounds=p[b])

    tail = [lambda s, p: s["o"].max_sharpe(), lambda s, p: s["o"].min_volatility(), lambda s, p: s["o"].efficient_frontier(points=12),
            lambda s, p: s["o"].portfolio_performance()]
    return "cla", [new] + [tail[int(i)] for i in rng.permutation(3)] + [tail[3]]


def s_hrp(rng):
    from pypfopt import HRPOpt

    cov = rng.random() < 0.4
    link = str(rng.choice(["single", "ward", "average"]))

    def new(s, p):
        s["o"] = HRPOpt(cov_matrix=p["S"]) if cov else HRPOpt(p["rets"])

    return "hrp", [new, lambda s, p: s["o"].optimize(linkage_method=link), lambda s, p: s["o"].portfolio_performance(),
                   lambda s, p: s["o"].clean_weights()]


def s_bl(rng, chain=True):
    from pypfopt import BlackLittermanModel, EfficientFrontier

    S = str(rng.choice(["S", "S_np"]))
    pi = str(rng.choice(["prior", "mu_np", "mu_col", "market", "equal", "none"]))
    v = str(rng.choice(["views", "views_s", "PQ", "PQs", "PQdf"])) if S == "S" else "PQ"
    om = str(rng.choice(["default", "omega", "idzorek"])) if v.startswith("PQ") else "default"
    caps = str(rng.choice(["caps", "caps_s"])) if S == "S" else "bench"

    def new(s, p):
        kw = {}
        if pi == "market":
            kw.update(pi="market", market_caps=p[caps], risk_aversion=2.0)
        elif pi == "equal":
            kw["pi"] = "equal"
        elif pi != "none":
            kw["pi"] = p[pi]
        if v.startswith("PQ"):
            kw.update(Q=p[{"PQ": "Q", "PQs": "Q_s", "PQdf": "Q_col"}[v]], P=p["P_df" if v == "PQdf" else "P"])
        else:
            kw["absolute_views"] = p[v]
        if om == "omega":
            kw["omega"] = p["omega"]
        elif om == "idzorek":
            kw.update(omega="idzorek", view_confidences=p["conf"] if v == "PQ" else p["conf_np"])
        s["o"] = BlackLittermanModel(p[S], **kw)

    mid = [lambda s, p: s["o"].bl_returns(), lambda s, p: s["o"].bl_cov(), lambda s, p: s["o"].bl_weights(),
           lambda s, p: s["o"].portfolio_performance(), lambda s, p: s["o"].bl_weights(3.0), lambda s, p: s["o"].optimize()]
    steps = [new] + [mid[int(i)] for i in rng.choice(6, int(rng.integers(3, 6)))]
    if rng.random() < 0.4 and S == "S" and chain:
        def chain_ef(s, p):
            e = EfficientFrontier(s["o"].bl_returns(), s["o"].bl_cov(), solver="CLARABEL")
            return e.min_volatility()
        steps.append(chain_ef)
    return "bl:%s:%s:%s" % (pi, v, om), steps


def s_bl_alone(rng):
    return s_bl(rng, chain=False)


def s_est(rng):
    import pypfopt.expected_returns as er
    import pypfopt.risk_models as rm

    src = str(rng.choice(["prices", "gaps"]))
    src2 = "prices"
    F = {
        "rets": lambda p: er.returns_from_prices(p[src]), "logs": lambda p: er.returns_from_prices(p[src], log_returns=True),
        "back": lambda p: er.prices_from_returns(p["rets"]), "backl": lambda p: er.prices_from_returns(p["rets"], log_returns=True),
        "mean": lambda p: er.mean_historical_return(p[src]), "meanr": lambda p: er.mean_historical_return(p["rets"], returns_data=True, compounding=False),
        "ema": lambda p: er.ema_historical_return(p[src2], span=50), "emar": lambda p: er.ema_historical_return(p["rets"], returns_data=True),
        "capm": lambda p: er.capm_return(p["prices"], market_prices=p["mkt"]), "capm0": lambda p: er.capm_return(p["prices"]),
        "capmr0": lambda p: er.capm_return(p["rets"], returns_data=True), "rmr": lambda p: er.return_model(p["rets"], method="capm_return", returns_data=True),
        "capml": lambda p: er.capm_return(p["prices"], market_prices=p["mkt"], log_returns=True, compounding=False),
        "capmn": lambda p: er.capm_return(p["rets_np"], returns_data=True), "emal": lambda p: er.ema_historical_return(p["prices"], log_returns=True, span=30),
        "meang": lambda p: er.mean_historical_return(p["rets_gaps"], returns_data=True), "meann": lambda p: er.mean_historical_return(p["rets_np"], returns_data=True),
        "semir": lambda p: rm.semicovariance(p["rets"], returns_data=True, benchmark=0.001), "expr": lambda p: rm.exp_cov(p["rets"], returns_data=True),
        "covg": lambda p: rm.sample_cov(p["rets_gaps"], returns_data=True), "backn": lambda p: er.prices_from_returns(p["rets_gaps"]),
        "shrr": lambda p: rm.CovarianceShrinkage(p["rets"], returns_data=True).shrunk_covariance(0.7), "shrn": lambda p: rm.CovarianceShrinkage(p["rets_np"], returns_data=True).oracle_approximating(),
        "covl": lambda p: rm.sample_cov(p["prices"], log_returns=True), "c2cl": lambda p: rm.corr_to_cov(p["corr"], list(p["stdevs"])),
        "mcdr": lambda p: rm.min_cov_determinant(p["rets"], returns_data=True, random_state=1), "fixbadn": lambda p: rm.fix_nonpositive_semidefinite(p["fetch"]),
        "capmr": lambda p: er.capm_return(p["rets"], market_prices=p["rets"].iloc[:, [0]], returns_data=True),
        "rm": lambda p: er.return_model(p["prices"], method="capm_return"),
        "cov": lambda p: rm.sample_cov(p[src]), "covr": lambda p: rm.sample_cov(p["rets"], returns_data=True),
        "semi": lambda p: rm.semicovariance(p[src2]), "exp": lambda p: rm.exp_cov(p[src2], span=60),
        "shr": lambda p: rm.CovarianceShrinkage(p["prices"]).shrunk_covariance(0.3),
        "lw": lambda p: rm.CovarianceShrinkage(p["prices"]).ledoit_wolf(), "lws": lambda p: rm.CovarianceShrinkage(p["rets"], returns_data=True).ledoit_wolf("single_factor"),
        "lwc": lambda p: rm.risk_matrix(p["prices"], "ledoit_wolf_constant_correlation"), "oas": lambda p: rm.risk_matrix(p["rets"], "oracle_approximating", returns_data=True),
        "fixs": lambda p: rm.fix_nonpositive_semidefinite(p["bad"]), "fixd": lambda p: rm.fix_nonpositive_semidefinite(p["bad"], fix_method="diag"),
        "fixok": lambda p: rm.fix_nonpositive_semidefinite(p["S"]), "c2c": lambda p: rm.cov_to_corr(p["S"]), "c2cn": lambda p: rm.cov_to_corr(p["S_np"]),
        "cc": lambda p: rm.corr_to_cov(p["corr"], p["stdevs"]), "risknp": lambda p: rm.sample_cov(p["rets_np"], returns_data=True),
        "mcd": lambda p: rm.min_cov_determinant(p["prices"], random_state=3)}
    ks = [str(k) for k in rng.choice(list(F), int(rng.integers(2, 6)))]
    return "est", [(lambda k: lambda s, p: F[k](p))(k) for k in ks]


def s_alloc(rng):
    from pypfopt import DiscreteAllocation
    from pypfopt.discrete_allocation import get_latest_prices

    w = str(rng.choice(["weights", "ls"]))
    pr = str(rng.choice(["last", "last_more"]))
    value = float(rng.choice([1000, 25000]))
    reinv = bool(rng.random() < 0.4)

    def new(s, p):
        s["o"] = DiscreteAllocation(p[w], p[pr], total_portfolio_value=value, short_ratio=0.3 if w == "ls" and reinv else None)

    mid = [lambda s, p: s["o"].greedy_portfolio(reinvest=reinv), lambda s, p: s["o"].lp_portfolio(reinvest=reinv),
           lambda s, p: s["o"].greedy_portfolio(), lambda s, p: get_latest_prices(p["gaps"]), lambda s, p: s["o"].lp_portfolio()]
    return "alloc:" + w, [new] + [mid[int(i)] for i in rng.choice(5, int(rng.integers(1, 4)))]


def s_plot(rng):
    from pypfopt import CLA, EfficientFrontier, HRPOpt, plotting

    k = str(rng.choice(["cov", "corr", "w", "dend", "ef", "cla", "efr", "efi", "efl", "wneg"]))

    def fig_data(ax):
        if not hasattr(ax, "lines"):
            return [[np.array(t.x, float), np.array(t.y, float)] for t in ax.data]
        out = [np.asarray(l.get_xydata()) for l in ax.lines]
        out += [np.asarray(i.get_array()) for i in ax.images] + [[b.get_width() for b in ax.patches]]
        out += [np.asarray(c.get_offsets()) for c in ax.collections if len(c.get_offsets()) > 1]
        # tick labels name assets; on numeric axes they depend on rounding of the range
        return out + ([] if k.startswith(("ef", "cla")) else [[t.get_text() for t in ax.get_xticklabels()][:20]])

    def run(s, p):
        try:
            if k == "cov":
                return fig_data(plotting.plot_covariance(p["S"]))
            if k == "corr":
                return fig_data(plotting.plot_covariance(p["S"], plot_correlation=True, show_tickers=False))
            fig, ax = plt.subplots()
            if k == "w":
                return fig_data(plotting.plot_weights(p["weights"], ax=ax))
            if k == "wneg":
                return fig_data(plotting.plot_weights(p["ls"], ax=ax))
            if k == "dend":
                o = HRPOpt(p["rets"])
                o.optimize()
                return fig_data(plotting.plot_dendrogram(o, ax=ax))
            if k == "cla":
                return fig_data(plotting.plot_efficient_frontier(CLA(p["mu"], p["S"]), points=7, ax=ax, show_tickers=True))
            o = EfficientFrontier(p["mu"], p["S"], weight_bounds=p["pairs"], solver="CLARABEL")
            if k == "ef":
                return fig_data(plotting.plot_efficient_frontier(o, points=5, ax=ax))
            if k == "efi":
                return fig_data(plotting.plot_efficient_frontier(o, points=4, interactive=True))
            if k == "efl":
                return fig_data(plotting.plot_efficient_frontier(o, ef_param="return", ef_param_range=p["sweep_l"], ax=ax, show_assets=False))
            return fig_data(plotting.plot_efficient_frontier(o, ef_param="risk", ef_param_range=p["sweep"], ax=ax))
        finally:
            plt.close("all")

    return "plot:" + k, [run]


def s_misc(rng):
    from pypfopt import base_optimizer, black_litterman, objective_functions as of

    F = {"perf": lambda p: base_optimizer.portfolio_performance(p["weights"], p["mu"], p["S"], risk_free_rate=0.01),
         "perfn": lambda p: base_optimizer.portfolio_performance(p["wcopy"], p["mu_np"], p["S_np"]),
         "perfl": lambda p: base_optimizer.portfolio_performance(p["weights"], None, p["S"]),
         "var": lambda p: of.portfolio_variance(p["wcopy"], p["S_np"]), "sh": lambda p: of.sharpe_ratio(p["wcopy"], p["mu_np"], p["S_np"]),
         "qu": lambda p: of.quadratic_utility(p["wcopy"], p["mu_np"], p["S_np"], 2), "tc": lambda p: of.transaction_cost(p["wcopy"], p["bench"]),
         "te": lambda p: of.ex_ante_tracking_error(p["wcopy"], p["S_np"], p["bench"]),
         "tep": lambda p: of.ex_post_tracking_error(p["wcopy"], p["rets_np"], p["brets"]),
         "teps": lambda p: of.ex_post_tracking_error(p["wcopy"], p["rets"], p["brets_s"]), "l2": lambda p: of.L2_reg(p["wcopy"], 2),
         "ret": lambda p: of.portfolio_return(p["wcopy"], p["mu_np"]), "perfs": lambda p: base_optimizer.portfolio_performance(p["wcopy"], p["mu"], p["S"], True),
         "prior": lambda p: black_litterman.market_implied_prior_returns(p["caps"], 2.5, p["S"]),
         "prior2": lambda p: black_litterman.market_implied_prior_returns(p["caps_s"], 2.5, p["S"], risk_free_rate=0.01),
         "ra": lambda p: black_litterman.market_implied_risk_aversion(p["mkt_s"])}
    ks = [str(k) for k in rng.choice(list(F), int(rng.integers(2, 5)))]
    return "misc", [(lambda k: lambda s, p: F[k](p))(k) for k in ks]


def s_base(rng):
    from pypfopt import EfficientFrontier

    cut, rnd = float(rng.choice([1e-4, 0.1])), [5, 2, None][int(rng.integers(3))]

    def new(s, p):
        s["o"] = EfficientFrontier(p["mu"], p["S"])
        s["o"].set_weights(p["weights"])

    return "base", [new, lambda s, p: np.array(s["o"].weights), lambda s, p: s["o"].clean_weights(cutoff=cut, rounding=rnd),
                    lambda s, p: s["o"].portfolio_performance(), lambda s, p: s["o"].clean_weights()]


SCRIPTS = [s_ef, s_hist, s_cla, s_hrp, s_bl, s_est, s_alloc, s_plot, s_misc, s_base]
PROB = np.array([0.22, 0.12, 0.08, 0.07, 0.14, 0.12, 0.08, 0.07, 0.05, 0.05])


# ------------------------------------------------------------------ outcomes


def freeze(x):
    """Plain comparable form of a result."""
    if isinstance(x, pd.DataFrame):
        return ("DF", [str(c) for c in x.columns], [str(i) for i in x.index], x.to_numpy(copy=True))
    if isinstance(x, pd.Series):
        return ("S", [str(i) for i in x.index], x.to_numpy(copy=True))
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, dict):
        return ("D", [repr(k) for k in x], [freeze(v) for v in x.values()])
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if isinstance(x, (bool, int, float, np.generic, str)) or x is None:
        return x
    return type(x).__name__


def differ(a, b, path="", tol=1.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return path + ": shapes"
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            return None if np.allclose(a, b, rtol=1e-7 * tol, atol=1e-9 * tol, equal_nan=True) else path + ": %.3g" % np.nanmax(np.abs(a - b))
        return None if a.tolist() == b.tolist() else path
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return path + ": lengths %d, %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s[%d]" % (path, i), tol)
            if d:
                return d
        return None
    if isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and not isinstance(a, np.str_):
        ok = (a == b) or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * (1e-9 + 1e-7 * abs(a))
        return None if ok else path + ": %r, %r" % (a, b)
    return None if type(a) == type(b) and a == b else path + ": %r, %r" % (a, b)


# maximising a smooth function by golden section locates the maximum only to about the square root of the machine
# precision, so an ulp of difference (BLAS on differently aligned copies) shows at 1e-8
TOL = {"cla": 1e3, "plot:cla": 1e3}


def step(fn, state, pool):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ("ok", freeze(fn(state, pool)))
    except (CaseTimeout, KeyboardInterrupt):
        raise
    except BaseException as e:
        return ("error", type(e).__name__)


def run_threads(ctx):
    """Each script in a thread of its own, all at once, over the shared pool, the interpreter switching often."""
    rng = ctx.rng
    pool = make_pool(rng)
    # neither matplotlib nor cvxpy (its DPP scope is a process-wide flag) is thread-safe: no plots, and one script with a model
    free = [2, 3, 5, 8, 10, 10]
    ids = [int(rng.choice(free)) for _ in range(int(rng.integers(2, 5)))]
    if rng.random() < 0.8:
        ids.insert(0, int(rng.choice([0, 1, 4, 4, 6, 6, 9])))
    seeds = [int(x) for x in rng.integers(0, 2**31, len(ids))]
    if rng.random() < 0.3:
        if ids[-2] in free:
            ids[-1], seeds[-1] = ids[-2], seeds[-2]
    scripts = [(SCRIPTS + [s_bl_alone])[i](np.random.default_rng(s)) for i, s in zip(ids, seeds)]
    names = [nm for nm, _ in scripts]
    ctx.note(scripts=names)
    log, got = [], [[] for _ in scripts]
    with hooks.unmonitored(), warnings.catch_warnings():
        warnings.simplefilter("ignore")

        def plain(fn, state, p):
            try:
                return ("ok", freeze(fn(state, p)))
            except BaseException as e:
                return ("error", type(e).__name__)

        alone = []
        for nm, steps in scripts:
            p, st = copy.deepcopy(pool), {}
            alone.append([plain(f, st, p) for f in steps])
        dig = {k: hooks.digest(v) for k, v in pool.items()}
        gate = threading.Barrier(len(scripts))

        def body(i):
            st = {}
            gate.wait()
            for j, f in enumerate(scripts[i][1]):
                log.append((i, j, 0))
                got[i].append(plain(f, st, pool))
                log.append((i, j, 1))

        old = sys.getswitchinterval()
        sys.setswitchinterval(float(rng.choice([1e-4, 3e-4, 1e-3])))
        try:
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(scripts))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
    open_, overlaps = set(), 0
    for i, j, end in log:
        if end:
            open_.discard(i)
        else:
            overlaps += len(open_)
            open_.add(i)
    ctx.count("thread_overlaps", overlaps)
    ctx.event("threads", scripts=names, overlaps=overlaps, order=[i for i, j, e in log if not e])
    for i, nm in enumerate(names):
        ctx.check(len(got[i]) == len(alone[i]), "thread-done", "%s stopped after %d steps" % (nm, len(got[i])))
        for j, (a, b) in enumerate(zip(alone[i], got[i])):
            d = differ(a, b, tol=TOL.get(nm, 1.0))
            ctx.check(d is None, "thread-isolated", "%s step %d, with other threads at work, differs from the same script run alone: %s" % (nm, j, d),
                      scripts=names, alone=a, threaded=b)
    bad = [k for k, v in pool.items() if hooks.digest(v) != dig[k]]
    ctx.check(not bad, "thread-pool-digest", "shared inputs changed: %r" % bad, scripts=names)
    ctx.sig("threads", min(overlaps, 12), *sorted(names))


def run_case(ctx):
    if ctx.kind == "threads":
        return run_threads(ctx)
    rng = ctx.rng
    pool = make_pool(rng)
    seeds = [int(x) for x in rng.integers(0, 2**31, 8)]
    if ctx.kind == "pair":
        f = SCRIPTS[int(rng.choice([0, 0, 1, 2, 3, 4, 4, 6]))]
        scripts = [f(np.random.default_rng(seeds[0])), f(np.random.default_rng(seeds[0 if rng.random() < 0.5 else 1]))]
    else:
        ids = rng.choice(len(SCRIPTS), int(rng.integers(3, 7)), p=PROB / PROB.sum())
        scripts = [SCRIPTS[int(i)](np.random.default_rng(s)) for i, s in zip(ids, seeds)]
    names = [nm for nm, _ in scripts]
    ctx.note(scripts=names)
    # alone, on deep copies (before and unmonitored)
    alone = []
    with hooks.unmonitored():
        for nm, steps in scripts:
            p, st = copy.deepcopy(pool), {}
            alone.append([step(f, st, p) for f in steps])
    # interleaved, on the shared pool
    dig = {k: hooks.digest(v) for k, v in pool.items()}
    pos, states = [0] * len(scripts), [dict() for _ in scripts]
    got = [[] for _ in scripts]
    order = []
    while True:
        live = [i for i, (nm, s) in enumerate(scripts) if pos[i] < len(s)]
        if not live:
            break
        i = int(rng.choice(live))
        f = scripts[i][1][pos[i]]
        r = step(f, states[i], pool)
        got[i].append(r)
        order.append(i)
        ctx.event("step", script=names[i], step=pos[i], outcome=r[0] if r[0] == "ok" else r[1])
        d = differ(alone[i][pos[i]], r, tol=TOL.get(names[i], 1.0))
        ctx.check(d is None, "isolated", "%s step %d differs from the same script run alone on copies: %s" % (names[i], pos[i], d),
                  scripts=names, order=order, alone=alone[i][pos[i]], shared=r)
        for k, v in pool.items():
            if hooks.digest(v) != dig[k]:
                ctx.check(False, "pool-digest", "%s step %d changed the shared input %r" % (names[i], pos[i], k), scripts=names)
                dig[k] = hooks.digest(v)
            else:
                ctx.check(True, "pool-digest")
        ctx.count("steps_ok" if r[0] == "ok" else "steps_error")
        if r[0] != "ok":
            ctx.count("error:%s:%s" % (names[i].split(":")[0], r[1]))
        pos[i] += 1
    # the same computation again on the same inputs
    i = int(rng.integers(len(scripts)))
    st = {}
    for j, f in enumerate(scripts[i][1]):
        r = step(f, st, pool)
        d = differ(got[i][j], r, tol=TOL.get(names[i], 1.0))
        ctx.check(d is None, "repeat", "%s step %d gives another result the second time: %s" % (names[i], j, d), first=got[i][j], second=r)
    ctx.sig(*sorted(names))
