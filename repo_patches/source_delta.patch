From 103423b49db1d9934f3562ff5a11e1364bf49c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 01/11] fix: capm_return no longer renames the columns of the
 caller's market returns

---
 pypfopt/expected_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..a47de83 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -245,7 +245,7 @@ def capm_return(
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
-            market_returns = market_prices
+            market_returns = market_prices.copy()
     else:
         returns = returns_from_prices(prices, log_returns)
 
-- 
2.43.0


From 2a478caeebb993dd21cad61dc99bd0b4b8f23e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 02/11] fix: lp_portfolio pairs each weight with its own
 ticker's price

---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..b2265e9 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -306,7 +306,7 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        p = np.array([self.latest_prices[ticker] for ticker, _ in self.weights])
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From d61a86c02c2a198c89fce4d45259875b2e5594a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 03/11] fix: bl_weights solves its own system when the
 covariance matrix is singular

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..6a429c3 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -466,7 +466,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From dc588a82cf1c38113d10b1ee8658cfd4f65d8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 04/11] fix: frontier plot skips parameter values without a
 portfolio instead of repeating the previous point

---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..2d8e32d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -255,6 +255,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From 7dae1b6c1bdef31d716c6142b19830c5f2f085d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 05/11] fix: a (None, x) bounds pair is not mistaken for
 per-asset bounds when there are two assets

---
 pypfopt/base_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..bcdf2ee 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -212,8 +212,8 @@ class BaseConvexOptimizer(BaseOptimizer):
         :rtype: tuple pair of np.ndarray
         """
         # If it is a collection with the right length, assume they are all bounds.
-        if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
+        if len(test_bounds) == self.n_assets and not (
+            test_bounds[0] is None or isinstance(test_bounds[0], (float, int))
         ):
             bounds = np.array(test_bounds, dtype=float)
             self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-- 
2.43.0


From 076fa4accea4d065569eb72ae79d619e9a865bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 06/11] fix: a maximum return of exactly zero is remembered
 between efficient_return calls

---
 pypfopt/efficient_frontier/efficient_frontier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..1508800 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -393,7 +393,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if not self._max_return_value:
+        if self._max_return_value is None:
             a = self.deepcopy()
             self._max_return_value = a._max_return()
         if target_return > self._max_return_value:
-- 
2.43.0


From 213d1640bf7e4ef112d0f17badf2e1b5f932ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 07/11] fix: market-implied prior works with a covariance
 matrix given as an array

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6a429c3..6760cd6 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -272,7 +272,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From e7adf9f69d997b0aabfff97ef77338a5ee4114f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 08/11] fix: market-neutral targets are not held against the
 limits of fully invested portfolios

---
 .../efficient_frontier/efficient_frontier.py  | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 1508800..bfa10ec 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -199,7 +199,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         self.add_constraint(lambda w: cp.sum(w) == 1)
         return self._solve_cvxpy_opt_problem()
 
-    def _max_return(self, return_value=True):
+    def _max_return(self, return_value=True, market_neutral=False):
         """
         Helper method to maximise return. This should not be used to optimize a portfolio.
 
@@ -213,7 +213,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
             self._w, self.expected_returns
         )
 
-        self.add_constraint(lambda w: cp.sum(w) == 1)
+        self._make_weight_sum_constraint(market_neutral)
 
         res = self._solve_cvxpy_opt_problem()
 
@@ -222,6 +222,23 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:
             return res
 
+    def _validate_target_return(self, target_return, market_neutral):
+        """
+        Helper method to check that the target return can be reached within the constraints.
+
+        :raises ValueError: if ``target_return`` exceeds the maximum possible return
+        """
+        if self._max_return_value is None or self._opt is None:
+            a = self.deepcopy()
+            with warnings.catch_warnings():
+                # Amending the bounds is reported once, by the actual problem
+                warnings.filterwarnings("ignore", message="Market neutrality")
+                self._max_return_value = a._max_return(market_neutral=market_neutral)
+        if target_return > self._max_return_value:
+            raise ValueError(
+                "target_return must be lower than the maximum possible return"
+            )
+
     def max_sharpe(self, risk_free_rate=0.0):
         """
         Maximise the Sharpe Ratio. The result is also referred to as the tangency portfolio,
@@ -350,7 +367,8 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
 
         global_min_volatility = np.sqrt(1 / np.sum(np.linalg.pinv(self.cov_matrix)))
 
-        if target_volatility < global_min_volatility:
+        # The bound only applies to fully invested portfolios
+        if not market_neutral and target_volatility < global_min_volatility:
             raise ValueError(
                 "The minimum volatility is {:.3f}. Please use a higher target_volatility".format(
                     global_min_volatility
@@ -393,13 +411,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if self._max_return_value is None:
-            a = self.deepcopy()
-            self._max_return_value = a._max_return()
-        if target_return > self._max_return_value:
-            raise ValueError(
-                "target_return must be lower than the maximum possible return"
-            )
+        self._validate_target_return(target_return, market_neutral)
 
         update_existing_parameter = self.is_parameter_defined("target_return")
         if update_existing_parameter:
-- 
2.43.0


From 6322a21548d9ed09f504cfd998b22fc2dd972858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 09/11] fix: semivariance target return is held against what
 the constraints allow, not the largest single return

---
 pypfopt/efficient_frontier/efficient_semivariance.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..e6b7ec5 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -221,10 +221,7 @@ class EfficientSemivariance(EfficientFrontier):
         """
         if not isinstance(target_return, float) or target_return < 0:
             raise ValueError("target_return should be a positive float")
-        if target_return > np.abs(self.expected_returns).max():
-            raise ValueError(
-                "target_return must be lower than the largest expected return"
-            )
+        self._validate_target_return(target_return, market_neutral)
 
         update_existing_parameter = self.is_parameter_defined("target_return")
         if update_existing_parameter:
-- 
2.43.0


From 2dabb2270877202426b0132805ec25ea76bed53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 10/11] fix: critical line keeps fractional weights when bounds
 per asset are given as integers

---
 pypfopt/cla.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..a4405d9 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -71,13 +71,14 @@ class CLA(base_optimizer.BaseOptimizer):
         if len(weight_bounds) == len(self.mean) and not isinstance(
             weight_bounds[0], (float, int)
         ):
-            self.lB = np.array([b[0] for b in weight_bounds]).reshape(-1, 1)
+            self.lB = np.array([b[0] for b in weight_bounds], dtype=float).reshape(-1, 1)
             self.uB = np.array([b[1] for b in weight_bounds]).reshape(-1, 1)
         else:
             if isinstance(weight_bounds[0], (float, int)):
                 self.lB = np.ones(self.mean.shape) * weight_bounds[0]
             else:
-                self.lB = np.array(weight_bounds[0]).reshape(self.mean.shape)
+                self.lB = np.array(weight_bounds[0], dtype=float)
+                self.lB = self.lB.reshape(self.mean.shape)
             if isinstance(weight_bounds[0], (float, int)):
                 self.uB = np.ones(self.mean.shape) * weight_bounds[1]
             else:
-- 
2.43.0


From 2886e4fcdbe8442510ddbf9b3cdb20b88c7a865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:42 +0000
Subject: [PATCH 11/11] fix: greedy allocation accepts whole-number prices

---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index b2265e9..51e007c 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -210,7 +210,7 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights /= current_weights.sum()
+            current_weights = current_weights / current_weights.sum()
             ideal_weights = np.array([i[1] for i in self.weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0

