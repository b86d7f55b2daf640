From c2f6fb6e696534635c264671ca65d06b98a6f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 01/43] fix: align prices with weights by ticker in
 lp_portfolio

lp_portfolio used latest_prices positionally, so any price series not in the
order of the weights (or after greedy_portfolio had sorted the weights, or with
additional tickers) silently produced a wrong allocation or an error.
---
 pypfopt/discrete_allocation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..03ea79f 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -306,7 +306,8 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        # Prices must be aligned with the weights, whatever the order of latest_prices
+        p = np.array([self.latest_prices[i[0]] for i in self.weights], dtype=float)
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From a36ace235210796d9395ce0893c50cadf36b9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 02/43] fix: rescale constraints correctly in max_sharpe

The variable substitution of max_sharpe multiplied only one side of each
constraint by the scaling variable, which is right only if that side is the
constant. E.g 'w - 0.1 >= 0' was silently not honoured, 'w[0] >= w[1] + 0.1'
and 'w[0] == w[1]' failed, and quadratic constraints were misinterpreted.
---
 .../efficient_frontier/efficient_frontier.py  | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..04ebca8 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -222,6 +222,30 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:
             return res
 
+    @staticmethod
+    def _homogenise(expr, k):
+        """
+        Helper method for ``max_sharpe``: rewrite an expression in the portfolio weights
+        ``x`` in terms of the transformed variable ``w = k * x``, i.e return
+        ``k * expr(w / k)``, such that its sign is unchanged.
+        """
+        if expr.is_affine():
+            # expr(w) = A @ w + b, so we need A @ w + b * k
+            values = [(v, v.value) for v in expr.variables()]
+            for v, _ in values:
+                v.value = np.zeros(v.shape)
+            b = expr.value
+            for v, value in values:
+                v.value = value
+            return expr + b * (k - 1)
+        elif expr.is_convex():
+            if expr.is_scalar():
+                return cp.perspective(expr, k)
+            flat = cp.vec(expr, order="F")
+            return cp.hstack([cp.perspective(flat[i], k) for i in range(flat.size)])
+        else:
+            return expr  # does not satisfy DCP rules, so cannot be optimized anyway
+
     def max_sharpe(self, risk_free_rate=0.0):
         """
         Maximise the Sharpe Ratio. The result is also referred to as the tangency portfolio,
@@ -251,7 +275,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         # max_sharpe requires us to make a variable transformation.
         # Here we treat w as the transformed variable.
         self._objective = cp.quad_form(self._w, self.cov_matrix, assume_PSD=True)
-        k = cp.Variable()
+        k = cp.Variable(nonneg=True)
 
         # Note: objectives are not scaled by k. Hence there are subtle differences
         # between how these objectives work for max_sharpe vs min_volatility
@@ -266,15 +290,11 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         # Must rebuild the constraints
         for constr in self._constraints:
             if isinstance(constr, cp.constraints.nonpos.Inequality):
-                # Either the first or second item is the expression
-                if isinstance(
-                    constr.args[0], cp.expressions.constants.constant.Constant
-                ):
-                    new_constraints.append(constr.args[1] >= constr.args[0] * k)
-                else:
-                    new_constraints.append(constr.args[0] <= constr.args[1] * k)
+                expr = constr.args[0] - constr.args[1]
+                new_constraints.append(self._homogenise(expr, k) <= 0)
             elif isinstance(constr, cp.constraints.zero.Equality):
-                new_constraints.append(constr.args[0] == constr.args[1] * k)
+                expr = constr.args[0] - constr.args[1]
+                new_constraints.append(self._homogenise(expr, k) == 0)
             else:
                 raise TypeError(
                     "Please check that your constraints are in a suitable format"
-- 
2.43.0


From d7330a1e75a3bbec0ccde0b8e0d95143169a5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 03/43] fix: recognise bound pairs for two-asset universes

With two assets, (None, None) or a pair of numpy integers was taken for a list
of per-asset pairs (IndexError), and a pair of arrays was silently transposed.
---
 pypfopt/base_optimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..fcd0e74 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -212,8 +212,14 @@ class BaseConvexOptimizer(BaseOptimizer):
         :rtype: tuple pair of np.ndarray
         """
         # If it is a collection with the right length, assume they are all bounds.
-        if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
+        # For two assets, a pair of arrays is a pair of lower and upper bounds.
+        is_array_pair = isinstance(test_bounds, (tuple, list)) and all(
+            isinstance(b, np.ndarray) for b in test_bounds
+        )
+        if (
+            len(test_bounds) == self.n_assets
+            and not (test_bounds[0] is None or np.isscalar(test_bounds[0]))
+            and not (self.n_assets == 2 and is_array_pair)
         ):
             bounds = np.array(test_bounds, dtype=float)
             self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-- 
2.43.0


From aecf40ed8fe677e7f35617babed53405944c7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 04/43] fix: support assets without a lower or upper bound

A None (or infinite) bound for an asset became an infinite constraint
constant, with which max_sharpe and every conic solver failed.
---
 pypfopt/base_optimizer.py                     | 26 ++++++++++++++-----
 .../efficient_frontier/efficient_frontier.py  |  5 ++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index fcd0e74..1f5d48d 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -222,8 +222,8 @@ class BaseConvexOptimizer(BaseOptimizer):
             and not (self.n_assets == 2 and is_array_pair)
         ):
             bounds = np.array(test_bounds, dtype=float)
-            self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-            self._upper_bounds = np.nan_to_num(bounds[:, 1], nan=np.inf)
+            self._lower_bounds = np.where(np.isnan(bounds[:, 0]), -np.inf, bounds[:, 0])
+            self._upper_bounds = np.where(np.isnan(bounds[:, 1]), np.inf, bounds[:, 1])
         else:
             # Otherwise this must be a pair.
             if len(test_bounds) != 2 or not isinstance(test_bounds, (tuple, list)):
@@ -239,11 +239,23 @@ class BaseConvexOptimizer(BaseOptimizer):
                 upper = 1 if upper is None else upper
                 self._upper_bounds = np.array([upper] * self.n_assets)
             else:
-                self._lower_bounds = np.nan_to_num(lower, nan=-1)
-                self._upper_bounds = np.nan_to_num(upper, nan=1)
-
-        self.add_constraint(lambda w: w >= self._lower_bounds)
-        self.add_constraint(lambda w: w <= self._upper_bounds)
+                self._lower_bounds = np.where(np.isnan(lower), -1, lower)
+                self._upper_bounds = np.where(np.isnan(upper), 1, upper)
+
+        # Infinite bounds are no constraint at all (and most solvers can't handle them)
+        has_lower = np.isfinite(self._lower_bounds)
+        has_upper = np.isfinite(self._upper_bounds)
+        if np.any(has_lower):
+            self.add_constraint(
+                lambda w: (w if np.all(has_lower) else w[has_lower])
+                >= self._lower_bounds[has_lower]
+            )
+        if np.any(has_upper):
+            self.add_constraint(
+                lambda w: (w if np.all(has_upper) else w[has_upper])
+                <= self._upper_bounds[has_upper]
+            )
+        self._n_bound_constraints = int(np.any(has_lower)) + int(np.any(has_upper))
 
     def is_parameter_defined(self, parameter_name: str) -> bool:
         is_defined = False
diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 04ebca8..53e01b6 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -173,10 +173,9 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                     "Market neutrality requires shorting - bounds have been amended",
                     RuntimeWarning,
                 )
-                self._map_bounds_to_constraints((-1, 1))
                 # Delete original constraints
-                del self._constraints[0]
-                del self._constraints[0]
+                del self._constraints[: self._n_bound_constraints]
+                self._map_bounds_to_constraints((-1, 1))
 
             self.add_constraint(lambda w: cp.sum(w) == 0)
         else:
-- 
2.43.0


From ef38d376c75f127810962db655891b1995400cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 05/43] fix: use the right budget when checking target_return
 is attainable

efficient_return(market_neutral=True) compared the target with the maximum return
of a fully invested portfolio, refusing targets attainable by market-neutral
portfolios, and failed if the maximum return is unbounded.
---
 .../efficient_frontier/efficient_frontier.py  | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 53e01b6..20ee079 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -198,7 +198,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         self.add_constraint(lambda w: cp.sum(w) == 1)
         return self._solve_cvxpy_opt_problem()
 
-    def _max_return(self, return_value=True):
+    def _max_return(self, return_value=True, market_neutral=False):
         """
         Helper method to maximise return. This should not be used to optimize a portfolio.
 
@@ -212,7 +212,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
             self._w, self.expected_returns
         )
 
-        self.add_constraint(lambda w: cp.sum(w) == 1)
+        self._make_weight_sum_constraint(market_neutral)
 
         res = self._solve_cvxpy_opt_problem()
 
@@ -412,17 +412,26 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if not self._max_return_value:
+        update_existing_parameter = self.is_parameter_defined("target_return")
+        if update_existing_parameter:
+            self._validate_market_neutral(market_neutral)
+
+        if self._max_return_value is None or self._max_return_value[0] != market_neutral:
             a = self.deepcopy()
-            self._max_return_value = a._max_return()
-        if target_return > self._max_return_value:
+            try:
+                with warnings.catch_warnings():
+                    warnings.simplefilter("ignore")
+                    max_return = a._max_return(market_neutral=market_neutral)
+            except (exceptions.OptimizationError, cp.SolverError):
+                # E.g unbounded. Infeasibility will be detected when optimizing.
+                max_return = np.inf
+            self._max_return_value = (market_neutral, max_return)
+        if target_return > self._max_return_value[1]:
             raise ValueError(
                 "target_return must be lower than the maximum possible return"
             )
 
-        update_existing_parameter = self.is_parameter_defined("target_return")
         if update_existing_parameter:
-            self._validate_market_neutral(market_neutral)
             self.update_parameter_value("target_return", target_return)
         else:
             self._objective = objective_functions.portfolio_variance(
-- 
2.43.0


From be545282d61e6f0ff5ab7560dea9cd3a1d412f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 06/43] fix: do not refuse attainable volatility targets

The lower limit on target_volatility in efficient_risk was that of a fully
invested portfolio even if market_neutral, and was wrong for singular
covariance matrices (e.g fewer observations than assets).
---
 pypfopt/efficient_frontier/efficient_frontier.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 20ee079..c6d8f14 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -367,7 +367,13 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         if not isinstance(target_volatility, (float, int)) or target_volatility < 0:
             raise ValueError("target_volatility should be a positive float")
 
-        global_min_volatility = np.sqrt(1 / np.sum(np.linalg.pinv(self.cov_matrix)))
+        if market_neutral:
+            global_min_volatility = 0  # not investing at all
+        else:
+            # sqrt(1 / sum(inverse of cov_matrix)), also if cov_matrix is singular
+            q, V = np.linalg.eigh(self.cov_matrix)
+            q = np.maximum(q, max(1e-15 * q.max(), np.finfo(float).tiny))
+            global_min_volatility = np.sqrt(1 / np.sum(V.sum(axis=0) ** 2 / q))
 
         if target_volatility < global_min_volatility:
             raise ValueError(
-- 
2.43.0


From 7aac5dde484afcf6362fe835ced8c0244b63a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 07/43] fix: allow EfficientCDaR without expected returns

As documented, expected_returns can be None if optimising for CDaR only.
---
 pypfopt/efficient_frontier/efficient_cdar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index febd6e3..d7ce9b1 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -75,9 +75,10 @@ class EfficientCDaR(EfficientFrontier):
         :type solver_options: dict, optional
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         """
+        n_assets = returns.shape[1] if expected_returns is None else len(expected_returns)
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((len(expected_returns),) * 2),  # dummy
+            cov_matrix=np.zeros((n_assets,) * 2),  # dummy
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
-- 
2.43.0


From 3970a47bca6f7c7a20794563e49fe32d6a0adc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 08/43] fix: report performance without expected returns

EfficientSemivariance/CVaR/CDaR allow expected_returns to be None, but
portfolio_performance failed in this case (EfficientFrontier reports None).
---
 .../efficient_semivariance.py                 | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..b1fdccd 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -261,19 +261,28 @@ class EfficientSemivariance(EfficientFrontier):
         :return: expected return, semideviation, Sortino ratio.
         :rtype: (float, float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         portfolio_returns = self.returns @ self.weights
         drops = np.fmin(portfolio_returns - self.benchmark, 0)
         semivariance = np.sum(np.square(drops)) / self._T * self.frequency
         semi_deviation = np.sqrt(semivariance)
-        sortino_ratio = (mu - risk_free_rate) / semi_deviation
+        sortino_ratio = None
+        if mu is not None:
+            sortino_ratio = (mu - risk_free_rate) / semi_deviation
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Annual semi-deviation: {:.1f}%".format(100 * semi_deviation))
-            print("Sortino Ratio: {:.2f}".format(sortino_ratio))
+            if mu is not None:
+                print("Sortino Ratio: {:.2f}".format(sortino_ratio))
 
         return mu, semi_deviation, sortino_ratio
-- 
2.43.0


From 2e565cc445820c6ac2b3ec72f556f70b399cbba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 09/43] fix: keep the CVaR and CDaR of the solution together
 with its weights

portfolio_performance of EfficientCVaR/EfficientCDaR evaluated cvxpy variables
that are shared with deep copies and overwritten by later (possibly failed)
optimizations, so it could report the risk of another portfolio. It also
failed if expected_returns is None.
---
 pypfopt/efficient_frontier/efficient_cdar.py | 29 ++++++++++++++------
 pypfopt/efficient_frontier/efficient_cvar.py | 29 ++++++++++++++------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index d7ce9b1..8e95aae 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -88,6 +88,7 @@ class EfficientCDaR(EfficientFrontier):
         self.returns = self._validate_returns(returns)
         self._beta = self._validate_beta(beta)
         self._alpha = cp.Variable()
+        self._cdar_value = None
         self._u = cp.Variable(len(self.returns) + 1)
         self._z = cp.Variable(len(self.returns))
 
@@ -211,6 +212,16 @@ class EfficientCDaR(EfficientFrontier):
         self.add_constraint(lambda _: self._z >= 0)
         self.add_constraint(lambda _: self._u[1:] >= 0)
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables are shared with copies and overwritten by later optimizations,
+        # so their current value has to be kept together with the weights.
+        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._z
+        )
+        self._cdar_value = cdar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -222,17 +233,19 @@ class EfficientCDaR(EfficientFrontier):
         :return: expected return, CDaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
 
-        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._z
-        )
-        cdar_val = cdar.value
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
+        cdar_val = self._cdar_value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Drawdown at Risk: {:.2f}%".format(100 * cdar_val))
 
         return mu, cdar_val
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index d456f79..bd2cdf5 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -88,6 +88,7 @@ class EfficientCVaR(EfficientFrontier):
         self.returns = self._validate_returns(returns)
         self._beta = self._validate_beta(beta)
         self._alpha = cp.Variable()
+        self._cvar_value = None
         self._u = cp.Variable(len(self.returns))
 
     def set_weights(self, input_weights):
@@ -217,6 +218,16 @@ class EfficientCVaR(EfficientFrontier):
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables are shared with copies and overwritten by later optimizations,
+        # so their current value has to be kept together with the weights.
+        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._u
+        )
+        self._cvar_value = cvar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -228,17 +239,19 @@ class EfficientCVaR(EfficientFrontier):
         :return: expected return, CVaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
 
-        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._u
-        )
-        cvar_val = cvar.value
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
+        cvar_val = self._cvar_value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Value at Risk: {:.2f}%".format(100 * cvar_val))
 
         return mu, cvar_val
-- 
2.43.0


From 93bbe693bd214deb74fab79f1bc17960e1868bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 10/43] fix: subtract the benchmark from portfolio returns in
 EfficientSemivariance

It was subtracted from every asset's returns, which for market neutral
portfolios (weights sum to zero) amounts to optimising for benchmark 0.
---
 .../efficient_semivariance.py                 | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index b1fdccd..0bfd067 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -100,6 +100,13 @@ class EfficientSemivariance(EfficientFrontier):
         self.frequency = frequency
         self._T = self.returns.shape[0]
 
+    def _scaled_returns(self):
+        """
+        Helper method to scale the returns and the benchmark for the semivariance. NB the
+        benchmark applies to the portfolio, whose weights don't sum to 1 if market neutral.
+        """
+        return self.returns.values / np.sqrt(self._T), self.benchmark / np.sqrt(self._T)
+
     def min_volatility(self):
         raise NotImplementedError("Please use min_semivariance instead.")
 
@@ -123,8 +130,8 @@ class EfficientSemivariance(EfficientFrontier):
         for obj in self._additional_objectives:
             self._objective += obj
 
-        B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-        self.add_constraint(lambda w: B @ w - p + n == 0)
+        B, b = self._scaled_returns()
+        self.add_constraint(lambda w: B @ w - b - p + n == 0)
         self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -161,8 +168,8 @@ class EfficientSemivariance(EfficientFrontier):
             for obj in self._additional_objectives:
                 self._objective += obj
 
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B, b = self._scaled_returns()
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -200,8 +207,8 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda _: self.frequency * cp.sum(cp.square(n)) <= target_semivariance
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B, b = self._scaled_returns()
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -241,8 +248,8 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda w: cp.sum(w @ self.expected_returns) >= target_return_par
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B, b = self._scaled_returns()
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
-- 
2.43.0


From 3dcb7676c87900b7e27433f280e69adb04d140b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 11/43] fix: solve for the right matrix in bl_weights if
 covariance is singular

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..6a429c3 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -466,7 +466,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From 2a0181345dbc0921e0a58f0f6604765a5323f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 12/43] fix: report BL return and Sharpe ratio for weights set
 with set_weights

---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6a429c3..69da84e 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -495,6 +495,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         :return: expected return, volatility, Sharpe ratio.
         :rtype: (float, float, float)
         """
+        if self.posterior_rets is None:
+            self.posterior_rets = self.bl_returns()
         if self.posterior_cov is None:
             self.posterior_cov = self.bl_cov()
         return base_optimizer.portfolio_performance(
-- 
2.43.0


From f35b98ae442c3eb7655f9aa43c2a6243c97a6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 13/43] fix: do not rename the columns of the caller's market
 returns in capm_return

---
 pypfopt/expected_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..a47de83 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -245,7 +245,7 @@ def capm_return(
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
-            market_returns = market_prices
+            market_returns = market_prices.copy()
     else:
         returns = returns_from_prices(prices, log_returns)
 
-- 
2.43.0


From 4773af5817c77972b3b47321d79fee79e8194008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 14/43] fix: do not plot a point for parameters without a
 portfolio

After the warning that no portfolio could be constructed, plot_efficient_frontier
repeated the previous portfolio's point, or failed if there was none.
---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..2d8e32d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -255,6 +255,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From 9e19ae9694ba021613c7e7422297e5d29e603542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 15/43] fix: plot_covariance of a plain array, as documented

---
 pypfopt/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 2d8e32d..6aa66ae 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -83,10 +83,11 @@ def plot_covariance(cov_matrix, plot_correlation=False, show_tickers=True, **kwa
     fig.colorbar(cax)
 
     if show_tickers:
+        tickers = getattr(matrix, "index", np.arange(0, matrix.shape[0], 1))
         ax.set_xticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_xticklabels(matrix.index)
+        ax.set_xticklabels(tickers)
         ax.set_yticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_yticklabels(matrix.index)
+        ax.set_yticklabels(tickers)
         plt.xticks(rotation=90)
 
     _plot_io(**kwargs)
-- 
2.43.0


From afb25f40e41d4de6d934c063a27b2882532d1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 16/43] fix: keep CLA weights as floats if bounds are integers

Per-asset integer bounds made an integer weight vector, so solutions were
truncated (and mostly not found).
---
 pypfopt/cla.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..0833252 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -71,17 +71,17 @@ class CLA(base_optimizer.BaseOptimizer):
         if len(weight_bounds) == len(self.mean) and not isinstance(
             weight_bounds[0], (float, int)
         ):
-            self.lB = np.array([b[0] for b in weight_bounds]).reshape(-1, 1)
-            self.uB = np.array([b[1] for b in weight_bounds]).reshape(-1, 1)
+            self.lB = np.array([b[0] for b in weight_bounds], float).reshape(-1, 1)
+            self.uB = np.array([b[1] for b in weight_bounds], float).reshape(-1, 1)
         else:
             if isinstance(weight_bounds[0], (float, int)):
                 self.lB = np.ones(self.mean.shape) * weight_bounds[0]
             else:
-                self.lB = np.array(weight_bounds[0]).reshape(self.mean.shape)
+                self.lB = np.array(weight_bounds[0], float).reshape(self.mean.shape)
             if isinstance(weight_bounds[0], (float, int)):
                 self.uB = np.ones(self.mean.shape) * weight_bounds[1]
             else:
-                self.uB = np.array(weight_bounds[1]).reshape(self.mean.shape)
+                self.uB = np.array(weight_bounds[1], float).reshape(self.mean.shape)
 
         self.w = []  # solution
         self.ls = []  # lambdas
-- 
2.43.0


From 116c9d2bf935454ec91b94cd2ddba9fce9696e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 17/43] fix: recognise bound pairs for two-asset universes in
 CLA

---
 pypfopt/cla.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 0833252..7ca9255 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -67,9 +67,14 @@ class CLA(base_optimizer.BaseOptimizer):
         self.expected_returns = self.mean.reshape((len(self.mean),))
         self.cov_matrix = np.asarray(cov_matrix)
 
-        # Bounds
-        if len(weight_bounds) == len(self.mean) and not isinstance(
-            weight_bounds[0], (float, int)
+        # Bounds. For two assets, a pair of arrays is a pair of lower and upper bounds.
+        is_array_pair = isinstance(weight_bounds, (tuple, list)) and all(
+            isinstance(b, np.ndarray) for b in weight_bounds
+        )
+        if (
+            len(weight_bounds) == len(self.mean)
+            and not isinstance(weight_bounds[0], (float, int))
+            and not (len(self.mean) == 2 and is_array_pair)
         ):
             self.lB = np.array([b[0] for b in weight_bounds], float).reshape(-1, 1)
             self.uB = np.array([b[1] for b in weight_bounds], float).reshape(-1, 1)
-- 
2.43.0


From c9e374cf7b21ffc4ef2611ad0dde0f9ee1fd96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 18/43] fix: raise if the solver fails in nonconvex_objective

Whatever the solver ended with (e.g for infeasible constraints) was returned
as the optimal portfolio, unlike for convex problems.
---
 pypfopt/base_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 1f5d48d..85c7f3a 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -497,6 +497,7 @@ class BaseConvexOptimizer(BaseOptimizer):
         :type solver: string
         :param initial_guess: the initial guess for the weights, shape (n,) or (n, 1)
         :type initial_guess: np.ndarray
+        :raises OptimizationError: if the solver does not converge (e.g infeasible constraints)
         :return: asset weights that optimize the custom objective
         :rtype: OrderedDict
         """
@@ -526,6 +527,10 @@ class BaseConvexOptimizer(BaseOptimizer):
             bounds=bounds,
             constraints=final_constraints,
         )
+        if not result["success"]:
+            raise exceptions.OptimizationError(
+                "Solver status: {}".format(result["message"])
+            )
         self.weights = result["x"]
         return self._make_output_weights()
 
-- 
2.43.0


From 47627afc9ae731a8be6c75cca7e2d2074fe901e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 19/43] fix: market-implied prior for a covariance matrix given
 as an array

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 69da84e..fcd8433 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -272,7 +272,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From 34748c669eab65b3560c559997b4db9cc0ea40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 20/43] fix: bound assets leaving the free set at their
 boundary in CLA

---
 pypfopt/cla.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 7ca9255..7a3492e 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -360,6 +360,8 @@ class CLA(base_optimizer.BaseOptimizer):
                     self.ls.append(l_out)
                     f.append(i_out)
                 covarF, covarFB, meanF, wB = self._get_matrices(f)
+                # the asset that was just bounded is at its boundary now
+                wB = self._reduce_matrix(w, self._get_b(f), [0])
                 covarF_inv = np.linalg.inv(covarF)
             # 5) compute solution vector
             wF, g = self._compute_w(covarF_inv, covarFB, meanF, wB)
-- 
2.43.0


From 5454fed18607372915c1998878174bdd503c78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 21/43] fix: whole CLA frontier even if there are many turning
 points

---
 pypfopt/cla.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 7a3492e..3fe8bf6 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -429,14 +429,16 @@ class CLA(base_optimizer.BaseOptimizer):
             self._solve()
 
         mu, sigma, weights = [], [], []
+        # at least the two ends of each segment between turning points
+        segment_points = max(2, points // len(self.w))
         # remove the 1, to avoid duplications
-        a = np.linspace(0, 1, points // len(self.w))[:-1]
+        a = np.linspace(0, 1, segment_points)[:-1]
         b = list(range(len(self.w) - 1))
         for i in b:
             w0, w1 = self.w[i], self.w[i + 1]
             if i == b[-1]:
                 # include the 1 in the last iteration
-                a = np.linspace(0, 1, points // len(self.w))
+                a = np.linspace(0, 1, segment_points)
             for j in a:
                 w = w1 * j + (1 - j) * w0
                 weights.append(np.copy(w))
-- 
2.43.0


From 410891c8b86df569b05608467dcd6aade0a0c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 22/43] fix: do not free the asset CLA just bounded, which
 could cycle for ever

---
 pypfopt/cla.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 3fe8bf6..8c018c3 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -311,6 +311,7 @@ class CLA(base_optimizer.BaseOptimizer):
         self.ls.append(None)
         self.g.append(None)
         self.f.append(f[:])
+        i_bounded = None  # asset bounded at the last turning point
         while True:
             # 1) case a): Bound one free weight
             l_in = None
@@ -330,6 +331,9 @@ class CLA(base_optimizer.BaseOptimizer):
             if len(f) < self.mean.shape[0]:
                 b = self._get_b(f)
                 for i in b:
+                    # can only be freed where it was just bounded, which would cycle
+                    if i == i_bounded:
+                        continue
                     covarF, covarFB, meanF, wB = self._get_matrices(f + [i])
                     covarF_inv = np.linalg.inv(covarF)
                     l, bi = self._compute_lambda(
@@ -356,9 +360,11 @@ class CLA(base_optimizer.BaseOptimizer):
                     self.ls.append(l_in)
                     f.remove(i_in)
                     w[i_in] = bi_in  # set value at the correct boundary
+                    i_bounded = i_in
                 else:
                     self.ls.append(l_out)
                     f.append(i_out)
+                    i_bounded = None
                 covarF, covarFB, meanF, wB = self._get_matrices(f)
                 # the asset that was just bounded is at its boundary now
                 wB = self._reduce_matrix(w, self._get_b(f), [0])
-- 
2.43.0


From 8c2a553dffedd0ee604647207b2b593a1c6c9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 23/43] fix: greedy allocation must not fail because weights
 are rounded

---
 pypfopt/discrete_allocation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 03ea79f..cc575de 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -199,9 +199,15 @@ class DiscreteAllocation:
             cost = n_shares * price
             # As weights are all > 0 (long only) we always round down n_shares
             # so the cost is always <= simple weighted share of portfolio value,
-            # so we can not run out of funds just here.
-            assert cost <= available_funds, "Unexpectedly insufficient funds."
-            available_funds -= cost
+            # so we can not run out of funds just here, except by the rounding of
+            # the weights (e.g. clean_weights) or of the arithmetic.
+            assert (
+                cost <= available_funds + 1e-3 * self.total_portfolio_value
+            ), "Unexpectedly insufficient funds."
+            if cost > available_funds + 1e-9 * self.total_portfolio_value:
+                n_shares = int(available_funds / price)
+                cost = n_shares * price
+            available_funds = max(available_funds - cost, 0)
             shares_bought.append(n_shares)
             buy_prices.append(price)
 
-- 
2.43.0


From 743c7316531d6ad8eb4be7d3b46df0ba05a3dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 24/43] fix: greedy allocation with whole-number prices

---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index cc575de..b1cd1ca 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -216,7 +216,7 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights /= current_weights.sum()
+            current_weights = current_weights / current_weights.sum()
             ideal_weights = np.array([i[1] for i in self.weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0


From 7aac14798c1da147906d13bc537289e8bde2c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 25/43] fix: leftover of the integer-programming allocation
 must match its shares

---
 pypfopt/discrete_allocation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index b1cd1ca..c52603c 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -341,7 +341,10 @@ class DiscreteAllocation:
             )
         )
 
+        # The solver's solution is only integer up to a tolerance
+        leftover = self.total_portfolio_value - p @ vals
+
         if verbose:
-            print("Funds remaining: {:.2f}".format(r.value))
+            print("Funds remaining: {:.2f}".format(leftover))
             self._allocation_rmse_error()
-        return self.allocation, r.value
+        return self.allocation, leftover
-- 
2.43.0


From c5cae3a484c33c360511ccc2689dfd83727c7d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 26/43] fix: greedy allocation bought assets of zero weight
 when no position was affordable in full

---
 pypfopt/discrete_allocation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index c52603c..afac1e5 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -216,7 +216,8 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights = current_weights / current_weights.sum()
+            if current_weights.any():  # otherwise nothing has been bought yet
+                current_weights = current_weights / current_weights.sum()
             ideal_weights = np.array([i[1] for i in self.weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0


From 7b9213fca996045a1fd30b0136ba63a43a2635d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 27/43] fix: CAPM returns of a ticker called mkt

---
 pypfopt/expected_returns.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index a47de83..d2f4bea 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -255,12 +255,17 @@ def capm_return(
                 market_prices = pd.DataFrame(market_prices)
 
             market_returns = returns_from_prices(market_prices, log_returns)
+    # Label of the market column, which must differ from all tickers
+    mkt = "mkt"
+    while mkt in returns.columns:
+        mkt = "_" + mkt
+
     # Use the equally-weighted dataset as a proxy for the market
     if market_returns is None:
         # Append market return to right and compute sample covariance matrix
-        returns["mkt"] = returns.mean(axis=1)
+        returns[mkt] = returns.mean(axis=1)
     else:
-        market_returns.columns = ["mkt"]
+        market_returns.columns = [mkt]
         returns = returns.join(market_returns, how="left")
 
     _check_returns(returns)
@@ -268,15 +273,15 @@ def capm_return(
     # Compute covariance matrix for the new dataframe (including markets)
     cov = returns.cov()
     # The far-right column of the cov matrix is covariances to market
-    betas = cov["mkt"] / cov.loc["mkt", "mkt"]
-    betas = betas.drop("mkt")
+    betas = cov[mkt] / cov.loc[mkt, mkt]
+    betas = betas.drop(mkt)
     # Find mean market return on a given time period
     if compounding:
-        mkt_mean_ret = (1 + returns["mkt"]).prod() ** (
-            frequency / returns["mkt"].count()
+        mkt_mean_ret = (1 + returns[mkt]).prod() ** (
+            frequency / returns[mkt].count()
         ) - 1
     else:
-        mkt_mean_ret = returns["mkt"].mean() * frequency
+        mkt_mean_ret = returns[mkt].mean() * frequency
 
     # CAPM formula
     return risk_free_rate + betas * (mkt_mean_ret - risk_free_rate)
-- 
2.43.0


From 30ee16f3e06dd4fe365106cd42cf65a684d2ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 28/43] fix: refuse a negative target semideviation

---
 pypfopt/efficient_frontier/efficient_semivariance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 0bfd067..6884781 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -184,9 +184,13 @@ class EfficientSemivariance(EfficientFrontier):
         :param market_neutral: whether the portfolio should be market neutral (weights sum to zero),
                                defaults to False. Requires negative lower weight bound.
         :param market_neutral: bool, optional
+        :raises ValueError: if ``target_semideviation`` is negative
         :return: asset weights for the efficient risk portfolio
         :rtype: OrderedDict
         """
+        if target_semideviation < 0:
+            raise ValueError("target_semideviation should be a positive float")
+
         update_existing_parameter = self.is_parameter_defined("target_semivariance")
         if update_existing_parameter:
             self._validate_market_neutral(market_neutral)
-- 
2.43.0


From 48cc620b13e2ce769016591b41047db8fa71b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 29/43] fix: a refused max_sharpe must not change the reported
 Sharpe ratio

---
 pypfopt/efficient_frontier/efficient_frontier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index c6d8f14..d3adc5c 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -269,8 +269,6 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                 "at least one of the assets must have an expected return exceeding the risk-free rate"
             )
 
-        self._risk_free_rate = risk_free_rate
-
         # max_sharpe requires us to make a variable transformation.
         # Here we treat w as the transformed variable.
         self._objective = cp.quad_form(self._w, self.cov_matrix, assume_PSD=True)
@@ -309,6 +307,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         self._solve_cvxpy_opt_problem()
         # Inverse-transform
         self.weights = (self._w.value / k.value).round(16) + 0.0
+        self._risk_free_rate = risk_free_rate
         return self._make_output_weights()
 
     def max_quadratic_utility(self, risk_aversion=1, market_neutral=False):
-- 
2.43.0


From 429ca930db14af2b910513a31078caae7ca22374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 30/43] fix: raise instead of returning infinite weights if no
 portfolio attains the maximum Sharpe ratio

---
 pypfopt/efficient_frontier/efficient_frontier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index d3adc5c..0c7b052 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -304,7 +304,13 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
             k >= 0,
         ] + new_constraints
 
+        previous_weights = self.weights
         self._solve_cvxpy_opt_problem()
+        if k.value <= 1e-4 * np.abs(self._w.value).sum():
+            self.weights = previous_weights
+            raise exceptions.OptimizationError(
+                "No portfolio attains the maximum Sharpe ratio (the weights are unbounded)"
+            )
         # Inverse-transform
         self.weights = (self._w.value / k.value).round(16) + 0.0
         self._risk_free_rate = risk_free_rate
-- 
2.43.0


From fa5c5a789f59777b268950a5ffc38f464fc1b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 31/43] fix: report the CVaR and CDaR of portfolios whose
 objective does not involve them

After convex_objective or nonconvex_objective, portfolio_performance of
EfficientCVaR/EfficientCDaR reported None, or the value of another portfolio
(of an earlier optimization, or of a copy sharing the variables).
---
 pypfopt/efficient_frontier/efficient_cdar.py | 17 ++++++++++++++++-
 pypfopt/efficient_frontier/efficient_cvar.py | 15 ++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index 8e95aae..b2eb181 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -89,6 +89,7 @@ class EfficientCDaR(EfficientFrontier):
         self._beta = self._validate_beta(beta)
         self._alpha = cp.Variable()
         self._cdar_value = None
+        self._cdar_weights = None
         self._u = cp.Variable(len(self.returns) + 1)
         self._z = cp.Variable(len(self.returns))
 
@@ -219,9 +220,21 @@ class EfficientCDaR(EfficientFrontier):
         cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._z
         )
-        self._cdar_value = cdar.value
+        has_cdar = any(var is self._alpha for var in self._opt.variables())
+        self._cdar_value = cdar.value if has_cdar else None
+        self._cdar_weights = self.weights
         return weights
 
+    def _historical_cdar(self):
+        """
+        CDaR of the current weights, for when the optimization did not involve it
+        """
+        cumulative = np.cumsum(np.asarray(self.returns) @ self.weights)
+        peaks = np.maximum.accumulate(np.maximum(cumulative, 0))
+        drawdowns = peaks - cumulative
+        dar = np.quantile(drawdowns, self._beta, method="inverted_cdf")
+        return dar + np.maximum(drawdowns - dar, 0).mean() / (1 - self._beta)
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -242,6 +255,8 @@ class EfficientCDaR(EfficientFrontier):
                 self.weights, self.expected_returns, negative=False
             )
         cdar_val = self._cdar_value
+        if cdar_val is None or self._cdar_weights is not self.weights:
+            cdar_val = self._historical_cdar()
 
         if verbose:
             if mu is not None:
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index bd2cdf5..7cf830b 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -89,6 +89,7 @@ class EfficientCVaR(EfficientFrontier):
         self._beta = self._validate_beta(beta)
         self._alpha = cp.Variable()
         self._cvar_value = None
+        self._cvar_weights = None
         self._u = cp.Variable(len(self.returns))
 
     def set_weights(self, input_weights):
@@ -225,9 +226,19 @@ class EfficientCVaR(EfficientFrontier):
         cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._u
         )
-        self._cvar_value = cvar.value
+        has_cvar = any(var is self._alpha for var in self._opt.variables())
+        self._cvar_value = cvar.value if has_cvar else None
+        self._cvar_weights = self.weights
         return weights
 
+    def _historical_cvar(self):
+        """
+        CVaR of the current weights, for when the optimization did not involve it
+        """
+        losses = -np.asarray(self.returns) @ self.weights
+        var = np.quantile(losses, self._beta, method="inverted_cdf")
+        return var + np.maximum(losses - var, 0).mean() / (1 - self._beta)
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -248,6 +259,8 @@ class EfficientCVaR(EfficientFrontier):
                 self.weights, self.expected_returns, negative=False
             )
         cvar_val = self._cvar_value
+        if cvar_val is None or self._cvar_weights is not self.weights:
+            cvar_val = self._historical_cvar()
 
         if verbose:
             if mu is not None:
-- 
2.43.0


From 8ccb516c5878ef490e3ef6b94df985938134437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 32/43] fix: nonconvex_objective of a function without further
 arguments

The default objective_args=None was passed on to the objective as an argument.
---
 pypfopt/base_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 85c7f3a..c9c32ce 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -502,7 +502,9 @@ class BaseConvexOptimizer(BaseOptimizer):
         :rtype: OrderedDict
         """
         # Sanitise inputs
-        if not isinstance(objective_args, tuple):
+        if objective_args is None:
+            objective_args = ()
+        elif not isinstance(objective_args, tuple):
             objective_args = (objective_args,)
 
         # Make scipy bounds
-- 
2.43.0


From d74b48a397840b041c2f7c3170993f5cc32b3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 33/43] fix: Black-Litterman posterior with redundant certain
 views (singular view system not noticed by solve)

---
 pypfopt/black_litterman.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index fcd8433..41f6d6b 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -387,6 +387,21 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
 
         return np.diag(view_omegas)
 
+    @staticmethod
+    def _solve_views(A, b):
+        """
+        Solve the linear system Ax = b. Certain views that follow from each other make A
+        singular (which, because of rounding, ``np.linalg.solve`` need not notice); the
+        system is then solved by least squares. A is first scaled to a unit diagonal, so
+        that uncertainties of different orders of magnitude are not mistaken for this.
+        """
+        scale = np.sqrt(np.abs(np.diag(A))).reshape(-1, 1)
+        scale[scale == 0] = 1
+        scaled_A = A / scale / scale.T
+        if len(A) > 0 and np.linalg.matrix_rank(scaled_A) < len(A):
+            return np.linalg.lstsq(scaled_A, b / scale, rcond=None)[0] / scale
+        return np.linalg.solve(A, b)
+
     def bl_returns(self):
         """
         Calculate the posterior estimate of the returns vector,
@@ -403,13 +418,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         if self._A is None:
             self._A = (self.P @ self._tau_sigma_P) + self.omega
         b = self.Q - self.P @ self.pi
-        try:
-            solution = np.linalg.solve(self._A, b)
-        except np.linalg.LinAlgError as e:
-            if "Singular matrix" in str(e):
-                solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
-            else:
-                raise e
+        solution = self._solve_views(self._A, b)
         post_rets = self.pi + self._tau_sigma_P @ solution
         return pd.Series(post_rets.flatten(), index=self.tickers)
 
@@ -429,13 +438,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             self._A = (self.P @ self._tau_sigma_P) + self.omega
 
         b = self._tau_sigma_P.T
-        try:
-            M_solution = np.linalg.solve(self._A, b)
-        except np.linalg.LinAlgError as e:
-            if "Singular matrix" in str(e):
-                M_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
-            else:
-                raise e
+        M_solution = self._solve_views(self._A, b)
         M = self.tau * self.cov_matrix - self._tau_sigma_P @ M_solution
         posterior_cov = self.cov_matrix + M
         return pd.DataFrame(posterior_cov, index=self.tickers, columns=self.tickers)
-- 
2.43.0


From c95f51b4d3683305c68969f08a836a7d544f15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 34/43] fix: discrete allocation of portfolios with a zero
 short ratio or without long positions

---
 pypfopt/discrete_allocation.py | 58 +++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index afac1e5..c4c0c7b 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -153,7 +153,8 @@ class DiscreteAllocation:
             # Make them sum to one
             long_total_weight = sum(longs.values())
             short_total_weight = sum(shorts.values())
-            longs = {t: w / long_total_weight for t, w in longs.items()}
+            if long_total_weight > 0:
+                longs = {t: w / long_total_weight for t, w in longs.items()}
             shorts = {t: w / short_total_weight for t, w in shorts.items()}
 
             # Construct long-only discrete allocations for each
@@ -164,19 +165,25 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating long sub-portfolio...")
-            da1 = DiscreteAllocation(
-                longs, self.latest_prices[longs.keys()], total_portfolio_value=long_val
-            )
-            long_alloc, long_leftover = da1.greedy_portfolio()
+            long_alloc, long_leftover = {}, long_val
+            if any(longs.values()):
+                da1 = DiscreteAllocation(
+                    longs,
+                    self.latest_prices[longs.keys()],
+                    total_portfolio_value=long_val,
+                )
+                long_alloc, long_leftover = da1.greedy_portfolio()
 
             if verbose:
                 print("\nAllocating short sub-portfolio...")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.greedy_portfolio()
+            short_alloc, short_leftover = {}, short_val
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.greedy_portfolio()
             short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
@@ -281,7 +288,8 @@ class DiscreteAllocation:
             # Make them sum to one
             long_total_weight = sum(longs.values())
             short_total_weight = sum(shorts.values())
-            longs = {t: w / long_total_weight for t, w in longs.items()}
+            if long_total_weight > 0:
+                longs = {t: w / long_total_weight for t, w in longs.items()}
             shorts = {t: w / short_total_weight for t, w in shorts.items()}
 
             # Construct long-only discrete allocations for each
@@ -292,19 +300,25 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating long sub-portfolio:")
-            da1 = DiscreteAllocation(
-                longs, self.latest_prices[longs.keys()], total_portfolio_value=long_val
-            )
-            long_alloc, long_leftover = da1.lp_portfolio(solver=solver)
+            long_alloc, long_leftover = {}, long_val
+            if any(longs.values()):
+                da1 = DiscreteAllocation(
+                    longs,
+                    self.latest_prices[longs.keys()],
+                    total_portfolio_value=long_val,
+                )
+                long_alloc, long_leftover = da1.lp_portfolio(solver=solver)
 
             if verbose:
                 print("\nAllocating short sub-portfolio:")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
+            short_alloc, short_leftover = {}, short_val
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
             short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
-- 
2.43.0


From 93bfd26fcfc8152bb53c80e6891f043e6c2a7acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 35/43] fix: problems with NaN data are refused instead of
 returning NaN or arbitrary weights

---
 pypfopt/base_optimizer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index c9c32ce..41b5fcc 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -18,6 +18,7 @@ import cvxpy as cp
 import numpy as np
 import pandas as pd
 import scipy.optimize as sco
+import scipy.sparse as sp
 
 from . import exceptions, objective_functions
 
@@ -322,6 +323,12 @@ class BaseConvexOptimizer(BaseOptimizer):
                         "The constraints were changed after the initial optimization. "
                         "Please create a new instance instead."
                     )
+            # Solvers do not reliably notice NaNs and may report garbage as optimal
+            for const in self._opt.constants():
+                value = const.value.data if sp.issparse(const.value) else const.value
+                if np.isnan(value).any():
+                    raise exceptions.OptimizationError("The problem data contains NaNs")
+
             self._opt.solve(
                 solver=self._solver, verbose=self._verbose, **self._solver_options
             )
-- 
2.43.0


From 579e338e05d5da7ef786f5c288da5b4cc966f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 36/43] fix: infinite expected returns, covariances or returns
 are refused instead of being dropped by the solver

---
 pypfopt/efficient_frontier/efficient_frontier.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 0c7b052..41ef067 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -100,6 +100,13 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:  # use integer labels
             tickers = list(range(num_assets))
 
+        # Solvers would silently drop the terms with infinite coefficients
+        for values in (self.expected_returns, self.cov_matrix):
+            if values is not None and np.isinf(np.asarray(values, dtype=float)).any():
+                raise ValueError(
+                    "expected_returns and cov_matrix should not contain infinite values"
+                )
+
         if expected_returns is not None and cov_matrix is not None:
             if cov_matrix.shape != (num_assets, num_assets):
                 raise ValueError("Covariance matrix does not match expected returns")
@@ -151,6 +158,8 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                 UserWarning,
             )
             returns_df = returns_df.dropna(axis=0, how="any")
+        if np.isinf(returns_df.values.astype(float)).any():
+            raise ValueError("returns should not contain infinite values")
 
         if self.expected_returns is not None:
             if returns_df.shape[1] != len(self.expected_returns):
-- 
2.43.0


From 4549936c989e1ba35c6c4963d5c523928afa53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 37/43] fix: CLA refuses non-finite expected returns and
 covariances

---
 pypfopt/cla.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 8c018c3..111c541 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -66,6 +66,8 @@ class CLA(base_optimizer.BaseOptimizer):
         #     self.mean[-1, 0] += 1e-5
         self.expected_returns = self.mean.reshape((len(self.mean),))
         self.cov_matrix = np.asarray(cov_matrix)
+        if not (np.isfinite(self.mean).all() and np.isfinite(self.cov_matrix).all()):
+            raise ValueError("expected_returns and cov_matrix should be finite")
 
         # Bounds. For two assets, a pair of arrays is a pair of lower and upper bounds.
         is_array_pair = isinstance(weight_bounds, (tuple, list)) and all(
-- 
2.43.0


From 22ca55a0bf033c215b89a9ec1ecf2ad6c696c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 38/43] fix: HRP refuses a covariance matrix with NaN or
 infinite values instead of returning NaN weights

---
 pypfopt/hierarchical_portfolio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/hierarchical_portfolio.py b/pypfopt/hierarchical_portfolio.py
index 52bfa17..e162bba 100644
--- a/pypfopt/hierarchical_portfolio.py
+++ b/pypfopt/hierarchical_portfolio.py
@@ -157,6 +157,8 @@ class HRPOpt(base_optimizer.BaseOptimizer):
             corr = risk_models.cov_to_corr(self.cov_matrix).round(6)
         else:
             corr, cov = self.returns.corr(), self.returns.cov()
+        if not np.all(np.isfinite(cov)):
+            raise ValueError("Covariance matrix contains NaN or infinite values")
 
         # Compute distance matrix, with ClusterWarning fix as
         # per https://stackoverflow.com/questions/18952587/
-- 
2.43.0


From 59c9f3e991851bbd73ab67c5e86e1528ee1a7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 39/43] fix: a picking matrix of an unsupported type is refused
 instead of being replaced by the identity

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 41f6d6b..ba56081 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -246,7 +246,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             self.P = P.values
         elif isinstance(P, np.ndarray):
             self.P = P
-        elif len(self.Q) == self.n_assets:
+        elif P is None and len(self.Q) == self.n_assets:
             # If a view on every asset is provided, P defaults
             # to the identity matrix.
             self.P = np.eye(self.n_assets)
-- 
2.43.0


From 1fd073b14d64c932acaef350f413181e417f3175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 40/43] fix: the length of view confidences given as an array
 is checked

---
 pypfopt/black_litterman.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index ba56081..9fe38e7 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -299,16 +299,15 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
                     "To use Idzorek's method, please supply a vector of percentage "
                     "confidence levels for each view."
                 )
-            if not isinstance(view_confidences, np.ndarray):
-                try:
-                    view_confidences = np.array(view_confidences).reshape(-1, 1)
-                    assert view_confidences.shape[0] == self.Q.shape[0]
-                    assert np.issubdtype(view_confidences.dtype, np.number)
-                except AssertionError:
-                    raise ValueError(
-                        "view_confidences should be a numpy 1D array or vector with the same length "
-                        "as the number of views."
-                    )
+            try:
+                view_confidences = np.array(view_confidences).reshape(-1, 1)
+                assert view_confidences.shape[0] == self.Q.shape[0]
+                assert np.issubdtype(view_confidences.dtype, np.number)
+            except AssertionError:
+                raise ValueError(
+                    "view_confidences should be a numpy 1D array or vector with the same length "
+                    "as the number of views."
+                )
 
             self.omega = BlackLittermanModel.idzorek_method(
                 view_confidences,
-- 
2.43.0


From 6b39a16a2ae1c0307ea9c6313d11d30b1450a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 41/43] fix: bl_weights refuses a non-positive risk aversion

---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 9fe38e7..ab6b306 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -460,6 +460,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         """
         if risk_aversion is None:
             risk_aversion = self.risk_aversion
+        elif risk_aversion <= 0:
+            raise ValueError("risk_aversion should be a positive float")
 
         self.posterior_rets = self.bl_returns()
         A = risk_aversion * self.cov_matrix
-- 
2.43.0


From d0b77e689181b813c72a8543eeafa73478e13071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 42/43] fix: an initial guess of shape (n, 1) is accepted as
 documented

---
 pypfopt/base_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 41b5fcc..3bd3c7a 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -520,6 +520,7 @@ class BaseConvexOptimizer(BaseOptimizer):
 
         if initial_guess is None:
             initial_guess = np.array([1 / self.n_assets] * self.n_assets)
+        initial_guess = np.ravel(initial_guess)
 
         # Construct constraints
         final_constraints = []
-- 
2.43.0


From c3fb6536f6ce4d146ca92084243d73939a5dca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 43/43] fix: accept attainable target returns above the largest
 expected return in EfficientSemivariance with shorts

---
 pypfopt/efficient_frontier/efficient_semivariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 6884781..9a2e464 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -232,7 +232,9 @@ class EfficientSemivariance(EfficientFrontier):
         """
         if not isinstance(target_return, float) or target_return < 0:
             raise ValueError("target_return should be a positive float")
-        if target_return > np.abs(self.expected_returns).max():
+        # With shorts, a portfolio can earn more than any single asset
+        long_only = not market_neutral and np.all(self._lower_bounds >= 0)
+        if long_only and target_return > np.abs(self.expected_returns).max():
             raise ValueError(
                 "target_return must be lower than the largest expected return"
             )
-- 
2.43.0

