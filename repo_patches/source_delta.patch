From e9f01e5d775355435bccdb0ff7d51fd5e8f9f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:43 +0000
Subject: [PATCH 01/58] fix: keep the EVaR risk aversion positive when there is
 no loss

---
 src/skfolio/measures/_measures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/measures/_measures.py b/src/skfolio/measures/_measures.py
index 43d25e9..e6231a2 100644
--- a/src/skfolio/measures/_measures.py
+++ b/src/skfolio/measures/_measures.py
@@ -392,6 +392,9 @@ def evar(returns: np.ndarray, beta: float = 0.95) -> float:
 
     # The lower bound is chosen to avoid exp overflow
     lower_bound = np.max(-returns) / 100
+    if lower_bound <= 0:
+        # Without any loss, the bound still needs to be strictly positive
+        lower_bound = max(np.max(np.abs(returns)) / 100, 1e-10)
     result = sco.minimize(
         func,
         x0=np.array([lower_bound * 2]),
-- 
2.43.0


From 9bda7294b822764dcb0e6bf4fde75590805e8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:24 +0000
Subject: [PATCH 02/58] fix: annualize the risk-free rate in annualized ratios

The annualized Sharpe and Sortino ratios subtracted the per-period risk-free
rate from the annualized mean, so they were not the ratio times the square
root of the annualization factor as documented.
---
 src/skfolio/portfolio/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_base.py b/src/skfolio/portfolio/_base.py
index 7ae67dd..0981686 100644
--- a/src/skfolio/portfolio/_base.py
+++ b/src/skfolio/portfolio/_base.py
@@ -775,10 +775,12 @@ class BasePortfolio:
             # ratio
             if measure.is_annualized:
                 mean = self.annualized_mean
+                risk_free_rate = self.risk_free_rate * self.annualized_factor
             else:
                 mean = self.mean
+                risk_free_rate = self.risk_free_rate
             risk = getattr(self, str(measure.linked_risk_measure.value))
-            value = (mean - self.risk_free_rate) / risk
+            value = (mean - risk_free_rate) / risk
         else:
             raise ValueError(f"{measure} is not a Measure.")
         return value
-- 
2.43.0


From 598bde0418a6c4a16c704673e84fd9b2aae2e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:48 +0000
Subject: [PATCH 03/58] fix: reject appending a portfolio starting on the last
 observation

MultiPeriodPortfolio.append only refused portfolios starting strictly before
the last observation, whereas building the same list at once also refuses a
portfolio starting on it.
---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 0ebad1d..c4a51b1 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -638,7 +638,7 @@ class MultiPeriodPortfolio(BasePortfolio):
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-            if start_date < prev_last_date:
+            if start_date <= prev_last_date:
                 raise ValueError(
                     f"Portfolios observations should not overlap: {prev_last_date} ->"
                     f" {start_date} "
-- 
2.43.0


From 8de84e74a281f6aa0d7e590f0704afb8bf601c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:32 +0000
Subject: [PATCH 04/58] fix: do not alter shared portfolio lists in
 MultiPeriodPortfolio.append

Appending extended the list in place, which also changed the list given by the
caller and the portfolios of copies while their returns stayed the same.
---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index c4a51b1..a15bdee 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -644,7 +644,7 @@ class MultiPeriodPortfolio(BasePortfolio):
                     f" {start_date} "
                 )
         self._loaded = False
-        self._portfolios.append(portfolio)
+        self._portfolios = [*self._portfolios, portfolio]
         if len(self.observations) == 0:
             # We don"t concatenate an empty array as we cannot know the dtype before.
             self.observations = portfolio.observations
-- 
2.43.0


From ee422a5980e3d31b79798cb106adb64c922416f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:30 +0000
Subject: [PATCH 05/58] fix: keep the settings in MultiPeriodPortfolio
 arithmetic

Negating, scaling or adding multi-period portfolios only kept the tag and the
fitness measures and reset the risk-free rate, the annualization factor,
compounding, the target return and the confidence levels to their defaults.
---
 .../portfolio/_multi_period_portfolio.py      | 65 +++++++------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index a15bdee..899905d 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -16,7 +16,7 @@ import pandas as pd
 import skfolio.typing as skt
 from skfolio.portfolio._base import BasePortfolio
 from skfolio.portfolio._portfolio import Portfolio
-from skfolio.utils.tools import deduplicate_names
+from skfolio.utils.tools import args_names, deduplicate_names
 
 
 class MultiPeriodPortfolio(BasePortfolio):
@@ -396,39 +396,19 @@ class MultiPeriodPortfolio(BasePortfolio):
         return value in self._portfolios
 
     def __neg__(self):
-        return self.__class__(
-            portfolios=[-p for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([-p for p in self])
 
     def __abs__(self):
-        return self.__class__(
-            portfolios=[abs(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([abs(p) for p in self])
 
     def __round__(self, n: int):
-        return self.__class__(
-            portfolios=[p.__round__(n) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([p.__round__(n) for p in self])
 
     def __floor__(self):
-        return self.__class__(
-            portfolios=[np.floor(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([np.floor(p) for p in self])
 
     def __trunc__(self):
-        return self.__class__(
-            portfolios=[np.trunc(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([np.trunc(p) for p in self])
 
     def __add__(self, other):
         if not isinstance(other, self.__class__):
@@ -438,10 +418,8 @@ class MultiPeriodPortfolio(BasePortfolio):
             )
         if len(self) != len(other):
             raise TypeError("Cannot add two MultiPeriodPortfolio of different sizes")
-        return self.__class__(
-            portfolios=[p1 + p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+        return self._with_portfolios(
+            [p1 + p2 for p1, p2 in zip(self, other, strict=True)]
         )
 
     def __sub__(self, other):
@@ -454,10 +432,8 @@ class MultiPeriodPortfolio(BasePortfolio):
             raise TypeError(
                 "Cannot subtract two MultiPeriodPortfolio of different sizes"
             )
-        return self.__class__(
-            portfolios=[p1 - p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+        return self._with_portfolios(
+            [p1 - p2 for p1, p2 in zip(self, other, strict=True)]
         )
 
     def __mul__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
@@ -465,9 +441,7 @@ class MultiPeriodPortfolio(BasePortfolio):
             portfolios = [p * other for p in self]
         else:
             portfolios = [p * a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._with_portfolios(portfolios)
 
     __rmul__ = __mul__
 
@@ -476,20 +450,25 @@ class MultiPeriodPortfolio(BasePortfolio):
             portfolios = [p // other for p in self]
         else:
             portfolios = [p // a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._with_portfolios(portfolios)
 
     def __truediv__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
         if np.isscalar(other):
             portfolios = [p / other for p in self]
         else:
             portfolios = [p / a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._with_portfolios(portfolios)
 
     # Private method
+    def _with_portfolios(self, portfolios: list[Portfolio]):
+        """Create a multi-period portfolio with the same settings and other portfolios."""
+        args = {
+            arg: getattr(self, arg)
+            for arg in args_names(self.__init__)
+            if arg not in ["portfolios", "name"]
+        }
+        return self.__class__(portfolios=portfolios, **args)
+
     def _set_portfolios(self, portfolios: list[Portfolio] | None = None) -> None:
         """Set the returns, observations and portfolios list.
 
-- 
2.43.0


From 5fadb8d24866245b6ed3bebaecf456e4fc26f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:01 +0000
Subject: [PATCH 06/58] fix: return the population from set_portfolio_params

---
 src/skfolio/population/_population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 683116e..be7b09b 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -109,6 +109,7 @@ class Population(list):
         for portfolio in self:
             for key, value in params.items():
                 setattr(portfolio, key, value)
+        return self
 
     @staticmethod
     def _validate_item(
-- 
2.43.0


From d5c4f9ea03ba45da684678392f0b66e6f0546f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:01 +0000
Subject: [PATCH 07/58] fix: validate the items added in place to a population

---
 src/skfolio/population/_population.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index be7b09b..cb85be3 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -62,6 +62,10 @@ class Population(list):
             )
         return self.__class__(super().__add__(other))
 
+    def __iadd__(self, other: list[BasePortfolio]) -> "Population":
+        self.extend(other)
+        return self
+
     def insert(self, index, item: BasePortfolio) -> None:
         """Insert portfolio before index."""
         super().insert(index, self._validate_item(item))
-- 
2.43.0


From 3c4b228c0764eceb82f243266b9d8f943b859a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:01 +0000
Subject: [PATCH 08/58] fix: select observations, not portfolios, in
 plot_cumulative_returns

---
 src/skfolio/population/_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index cb85be3..0b6c9e2 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -604,9 +604,9 @@ class Population(list):
             yaxis_title = title
             title = f"{title} (non-compounded)"
 
-        df = pd.concat(cumulative_returns, axis=1).iloc[:, idx]
+        df = pd.concat(cumulative_returns, axis=1)
         # Sort index because pd.concat unsort NaNs at the end
-        df.sort_index(inplace=True)
+        df = df.sort_index().iloc[idx]
         df.columns = deduplicate_names(names)
 
         fig = df.plot(backend="plotly")
-- 
2.43.0


From 66bf1a40f9b479b0723d6d3bdb0de97100bfac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:01 +0000
Subject: [PATCH 09/58] fix: return distinct names when a suffixed name already
 exists

---
 src/skfolio/utils/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2b3aadb..2621828 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -720,8 +720,11 @@ def deduplicate_names(names: npt.ArrayLike) -> list[str]:
     counts = {}
     for i, col in enumerate(names):
         cur_count = counts.get(col, 0)
-        if cur_count > 0:
-            names[i] = f"{col}_{cur_count}"
+        while cur_count > 0:
+            counts[col] = cur_count + 1
+            col = f"{col}_{cur_count}"
+            cur_count = counts.get(col, 0)
+        names[i] = col
         counts[col] = cur_count + 1
     return names
 
-- 
2.43.0


From 979423c235980f5738e8346b575730d258337219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:01 +0000
Subject: [PATCH 10/58] fix: assign all the trailing observations to the last
 fold

---
 src/skfolio/model_selection/_combinatorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/model_selection/_combinatorial.py b/src/skfolio/model_selection/_combinatorial.py
index 4c78c13..bb7b79d 100644
--- a/src/skfolio/model_selection/_combinatorial.py
+++ b/src/skfolio/model_selection/_combinatorial.py
@@ -279,7 +279,7 @@ class CombinatorialPurgedCV(BaseCombinatorialCV):
             )
 
         fold_index_num = np.arange(n_samples) // (n_samples // self.n_folds)
-        fold_index_num[fold_index_num == self.n_folds] = self.n_folds - 1
+        fold_index_num[fold_index_num >= self.n_folds] = self.n_folds - 1
 
         index_train_test = np.zeros((n_samples, self.n_splits))
         for i in range(self.n_splits):
-- 
2.43.0


From d38675a0eb32c4858d4bc534bb8553ad43167a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:01 +0000
Subject: [PATCH 11/58] fix: check that every fold is un-shuffled in
 cross_val_predict

---
 src/skfolio/model_selection/_validation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 9c99ad2..6035bd9 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -190,13 +190,14 @@ def cross_val_predict(
                     " `shuffle=False`"
                 )
         except AttributeError:
-            # If we cannot find the attribute shuffle, we check if the first folds
-            # are shuffled
-            for fold in splits[0]:
-                if not np.all(np.diff(fold) > 0):
-                    raise ValueError(
-                        "`cross_val_predict` only works with un-shuffled folds"
-                    ) from None
+            # If we cannot find the attribute shuffle, we check if the folds are
+            # shuffled
+            for split in splits:
+                for fold in split:
+                    if not np.all(np.diff(fold) > 0):
+                        raise ValueError(
+                            "`cross_val_predict` only works with un-shuffled folds"
+                        ) from None
 
     # We clone the estimator to make sure that all the folds are independent
     # and that it is pickle-able.
-- 
2.43.0


From 6abc82596292f6ebf11f6078a90644fceb39d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:26 +0000
Subject: [PATCH 12/58] fix: reject expressions without a left side or with two
 comparisons

---
 src/skfolio/utils/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index aa0122e..6b9d4be 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -421,6 +421,10 @@ def _string_to_equation(
             break
         sign = 1
         if e in _COMPARISON_OPERATORS:
+            if i == 1 or comparison_sign is not None:
+                raise EquationToMatrixError(
+                    f"{err_msg}: the character '{e}' is wrongly positioned"
+                )
             if e in _INEQUALITY_OPERATORS:
                 is_inequality = True
             else:
-- 
2.43.0


From 4f9aa9f479260ca919a5514dae83ebcd2afd88d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:26 +0000
Subject: [PATCH 13/58] fix: raise the documented error when a multiplication
 has no right operand

---
 src/skfolio/utils/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 6b9d4be..3af198a 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -457,6 +457,10 @@ def _string_to_equation(
             elif e in _MUL_OPERATORS:
                 # next can only a number
                 e = next(iterator, None)
+                if e is None:
+                    raise EquationToMatrixError(
+                        f"{err_msg}: the character '*' is wrongly positioned"
+                    )
                 try:
                     number = float(e)
                 except ValueError:
-- 
2.43.0


From 0aa966a9bf1afabeb28f255f53e06d26655eaac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:26 +0000
Subject: [PATCH 14/58] fix: keep numbers in scientific notation whole in
 expressions

---
 src/skfolio/utils/equations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 3af198a..9fa4bba 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -366,7 +366,12 @@ def _split_equation_string(string: str) -> list[str]:
     # '==' needs to be before '='
     operators = sorted(_OPERATORS, reverse=True)
     pattern = "((?:" + "|".join(["\\" + e for e in operators]) + "))"
-    res = [x.strip() for x in re.split(pattern, string)]
+    # The sign of an exponent, as in '1e-3', is not an operator
+    exponent_pattern = r"((?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]\d+(?!\w))"
+    res = []
+    for i, x in enumerate(re.split(exponent_pattern, string)):
+        res += [x] if i % 2 else re.split(pattern, x)
+    res = [x.strip() for x in res]
     res = [x for x in res if x != ""]
     return res
 
-- 
2.43.0


From b686c750a9e7711e1e0d178bea72cede9afb34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:26 +0000
Subject: [PATCH 15/58] fix: warn about a missing group in group cardinalities

---
 src/skfolio/utils/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 9fa4bba..dfb4c47 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -182,7 +182,7 @@ def group_cardinalities_to_matrix(
             a_inequality.append(arr)
             b_inequality.append(card)
 
-        except GroupNotFoundError as e:
+        except EquationToMatrixError as e:
             if raise_if_group_missing:
                 raise
             warnings.warn(str(e), stacklevel=2)
-- 
2.43.0


From a642e912efa0afeb85944c7a556ca3038fd68fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:26 +0000
Subject: [PATCH 16/58] fix: ignore the offset rebalancing dates that fall
 outside the sample

---
 src/skfolio/model_selection/_walk_forward.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index a8993f1..f25f2d4 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -358,10 +358,15 @@ def _split_from_period_without_train_offset(
     end = ts_index[-1]
     if freq_offset is not None:
         start = min(start, start - freq_offset)
+        end = max(end, end - freq_offset)
 
     date_range = pd.date_range(start=start, end=end, freq=freq)
     if freq_offset is not None:
         date_range += freq_offset
+        # The offset dates outside the sample are not rebalancing dates
+        date_range = date_range[
+            (date_range >= ts_index[0]) & (date_range <= ts_index[-1])
+        ]
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     n = len(idx)
@@ -405,10 +410,15 @@ def _split_from_period_with_train_offset(
     end = ts_index[-1]
     if freq_offset is not None:
         start = min(start, start - freq_offset)
+        end = max(end, end - freq_offset)
 
     date_range = pd.date_range(start=start, end=end, freq=freq)
     if freq_offset is not None:
         date_range += freq_offset
+        # The offset dates outside the sample are not rebalancing dates
+        date_range = date_range[
+            (date_range >= ts_index[0]) & (date_range <= ts_index[-1])
+        ]
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     train_idx = ts_index.get_indexer(date_range - train_size, method="ffill")
-- 
2.43.0


From 00fbdcf84d6a58e3d97121f590ef6705293c8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:26 +0000
Subject: [PATCH 17/58] fix: purge the end of the training set in date-offset
 walk-forward

---
 src/skfolio/model_selection/_walk_forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index f25f2d4..fcbe97f 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -438,13 +438,13 @@ def _split_from_period_with_train_offset(
                 return
             test_indices = np.arange(idx[i], n_samples)
         else:
-            test_indices = np.arange(idx[i], idx[i + test_size] - purged_size)
+            test_indices = np.arange(idx[i], idx[i + test_size])
 
         if expend_train:
             train_start = 0
         else:
             train_start = train_idx[i]
-        train_indices = np.arange(train_start, idx[i])
+        train_indices = np.arange(train_start, idx[i] - purged_size)
         yield train_indices, test_indices
 
         i += test_size
-- 
2.43.0


From ff561c4110633a8d8181a93bcf908b6a8eb98eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:26 +0000
Subject: [PATCH 18/58] fix: count the calendar splits in
 WalkForward.get_n_splits

---
 src/skfolio/model_selection/_walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index fcbe97f..b69b496 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -294,6 +294,8 @@ class WalkForward(sks.BaseCrossValidator):
         if X is None:
             raise ValueError("The 'X' parameter should not be None.")
         X, y = sku.indexable(X, y)
+        if self.freq is not None:
+            return sum(1 for _ in self.split(X))
         n_samples = X.shape[0]
         n = n_samples - self.train_size - self.purged_size
 
-- 
2.43.0


From 7a0501fc6d73fe1b51b415431f80ac4b7962efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:11 +0000
Subject: [PATCH 19/58] fix: count both sides of the deviation in the convex
 mean absolute deviation

The optimizers minimised twice the mean shortfall below the minimum
acceptable return. That equals the mean absolute deviation only when the
reference is the sample mean. Both sides are now bounded.
---
 src/skfolio/optimization/convex/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 46419a3..1efba90 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1545,10 +1545,12 @@ class ConvexOptimization(BaseOptimization, ABC):
             prior_model=prior_model, w=w, min_acceptable_return=min_acceptable_return
         )
         v = cp.Variable(n_observations, nonneg=True)
-        risk = 2 * cp.sum(v) / n_observations
+        risk = cp.sum(v) / n_observations
         constraints = [
             ptf_min_acceptable_return * self._scale_constraints
-            >= -v * self._scale_constraints
+            >= -v * self._scale_constraints,
+            ptf_min_acceptable_return * self._scale_constraints
+            <= v * self._scale_constraints,
         ]
         return risk, constraints
 
-- 
2.43.0


From f4fc7c180a6dbdc1c9f38f19888cf83f60ce07a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:11 +0000
Subject: [PATCH 20/58] fix: drop the risk-free rate from the convex first
 lower partial moment

The risk-free rate was added to every shortfall, so the risk that was
minimised and limited was not the first lower partial moment of the
portfolio.
---
 src/skfolio/optimization/convex/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 1efba90..29b0d98 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1592,8 +1592,7 @@ class ConvexOptimization(BaseOptimization, ABC):
         v = cp.Variable(n_observations, nonneg=True)
         risk = cp.sum(v) / n_observations
         constraints = [
-            self.risk_free_rate * factor * self._scale_constraints
-            - ptf_min_acceptable_return * self._scale_constraints
+            -ptf_min_acceptable_return * self._scale_constraints
             <= v * self._scale_constraints
         ]
         return risk, constraints
-- 
2.43.0


From bc812352a094800c226564175422e01ffe800ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:11 +0000
Subject: [PATCH 21/58] fix: allow transaction costs with the Gini mean
 difference

The convex transaction cost was part of an equality, so every problem with
both was refused with a DCPError. The cost is the same for each observation
and does not change the Gini mean difference.
---
 src/skfolio/optimization/convex/_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 29b0d98..6263b81 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -2112,9 +2112,8 @@ class ConvexOptimization(BaseOptimization, ABC):
             CVXPY Expression and Constraints the Ulcer Index risk measure.
         """
         ptf_returns = self._cvx_returns(prior_model=prior_model, w=w)
-        ptf_transaction_cost = self._cvx_transaction_cost(
-            prior_model=prior_model, w=w, factor=factor
-        )
+        # The transaction cost shifts each observation by the same amount: it doesn't
+        # change the Gini mean difference and is not affine.
         ptf_management_fee = self._cvx_management_fee(prior_model=prior_model, w=w)
         observation_nb = prior_model.returns.shape[0]
         x = cp.Variable((observation_nb, 1))
@@ -2126,7 +2125,6 @@ class ConvexOptimization(BaseOptimization, ABC):
         # noinspection PyTypeChecker
         constraints = [
             ptf_returns * self._scale_constraints
-            - ptf_transaction_cost * self._scale_constraints
             - ptf_management_fee * self._scale_constraints
             == cp.reshape(z, (observation_nb,), order="F") * self._scale_constraints,
             z @ gmd_w.T <= ones @ x.T + y @ ones.T,
-- 
2.43.0


From a1eb76cb0076b7286b03f7d817065725114c6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:08 +0000
Subject: [PATCH 22/58] fix: accept zero weight thresholds

A threshold of zero was turned into "not provided" while the rest of the
constraints still treated it as provided. A zero short threshold crashed and
a zero long threshold with a short threshold was refused.
---
 src/skfolio/optimization/convex/_base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 6263b81..c8f5afa 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -717,8 +717,6 @@ class ConvexOptimization(BaseOptimization, ABC):
                 fill_value=0,
                 name="threshold_long",
             )
-            if np.all(threshold_long == 0):
-                threshold_long = None
 
         if threshold_short is not None:
             threshold_short = self._clean_input(
@@ -727,8 +725,6 @@ class ConvexOptimization(BaseOptimization, ABC):
                 fill_value=0,
                 name="threshold_short",
             )
-            if np.all(threshold_short == 0):
-                threshold_short = None
 
         if groups is not None:
             groups = input_to_array(
-- 
2.43.0


From 5c8a95646d46c54849bb1423da180a4588d3490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:08 +0000
Subject: [PATCH 23/58] fix: check that weight bounds are provided before
 comparing them

A cardinality or threshold constraint without a minimum weight raised a
TypeError instead of the intended ValueError.
---
 src/skfolio/optimization/convex/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index c8f5afa..5786b75 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -819,13 +819,14 @@ class ConvexOptimization(BaseOptimization, ABC):
             )
 
         if is_mip:
-            is_short = np.any(min_weights < 0)
-
             if max_weights is None or min_weights is None:
                 raise ValueError(
                     "'max_weights' and 'min_weights' must be provided with cardinality "
                     "constraint"
                 )
+
+            is_short = np.any(min_weights < 0)
+
             if np.all(min_weights > 0):
                 raise ValueError(
                     "Cardinality and Threshold constraint can only be applied "
-- 
2.43.0


From 4dede1aeee41b3c1ae5a26b0abd1f3e45a926710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:22 +0000
Subject: [PATCH 24/58] fix: scale the tracking error limit in ratio
 optimization

The weights of the ratio problem are homogenized, so the limit has to be
multiplied by the homogenization factor like every other limit.
---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 731b8fc..a4cbc4b 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -902,7 +902,7 @@ class MeanRisk(ConvexOptimization):
             )
             constraints += [
                 tracking_error * self._scale_constraints
-                <= self.max_tracking_error * self._scale_constraints
+                <= self.max_tracking_error * factor * self._scale_constraints
             ]
 
         # Turnover
-- 
2.43.0


From d0c99c3424ef712bf219d01ec56c4c911f7a90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:22 +0000
Subject: [PATCH 25/58] fix: limit the variance of the portfolio in ratio
 optimization

Variance and semi-variance are homogeneous of degree two, so comparing them
with the limit times the homogenization factor limited something else than
the variance of the returned portfolio. Compare their square roots instead.
---
 src/skfolio/optimization/convex/_mean_risk.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index a4cbc4b..3e2b98e 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -1003,8 +1003,25 @@ class MeanRisk(ConvexOptimization):
                 constraints += constraints_i
                 if risk_limit is not None:
                     parameter = cp.Parameter(nonneg=True)
+                    if (
+                        self.objective_function == ObjectiveFunction.MAXIMIZE_RATIO
+                        and risk_func
+                        in [self._variance_risk, self._semi_variance_risk]
+                    ):
+                        # 2-homogeneous risk: limit its square root instead
+                        root_func = (
+                            self._standard_deviation_risk
+                            if r_m == RiskMeasure.VARIANCE
+                            else self._semi_deviation_risk
+                        )
+                        root_args = {k: args[k] for k in args_names(root_func)}
+                        limited_risk, constraints_i = root_func(**root_args)
+                        constraints += constraints_i
+                        risk_limit = np.sqrt(risk_limit)
+                    else:
+                        limited_risk = risk_i
                     constraints += [
-                        risk_i * self._scale_constraints
+                        limited_risk * self._scale_constraints
                         <= parameter * factor * self._scale_constraints
                     ]
                     parameters_values.append((parameter, risk_limit))
-- 
2.43.0


From 3d49f7074c219aeaf3c88db82a4fef8ae70df8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:34 +0000
Subject: [PATCH 26/58] fix: keep the homogenization factor of ratio
 optimization non-negative

With a negative factor the inequality constraints are reversed and the
returned portfolio has a negative ratio. Nothing prevented it when the
weights are not bounded from both sides.
---
 src/skfolio/optimization/convex/_mean_risk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 3e2b98e..1165efe 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -852,7 +852,10 @@ class MeanRisk(ConvexOptimization):
         constraints = []
 
         if self.objective_function == ObjectiveFunction.MAXIMIZE_RATIO:
-            factor = cp.Variable()
+            # Two-sided bounds already imply a non-negative factor
+            factor = cp.Variable(
+                nonneg=self.min_weights is None or self.max_weights is None
+            )
         else:
             factor = cp.Constant(1)
 
-- 
2.43.0


From e880706f4b6535fae838fdc180b0f3c576d59e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:34 +0000
Subject: [PATCH 27/58] fix: compare the lengths of the limits given as arrays

---
 src/skfolio/optimization/convex/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 5786b75..8ee8686 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1092,7 +1092,7 @@ class ConvexOptimization(BaseOptimization, ABC):
             # If the parameter value is a list, each element is the parameter value of
             # a distinct optimization. Therefore, each list must have same length.
             sizes = [len(v) for p, v in parameters_values if not np.isscalar(v)]
-            if not np.all(sizes):
+            if len(set(sizes)) > 1:
                 raise ValueError(
                     "All list elements from `parameters_values` should have same length"
                 )
-- 
2.43.0


From 9e7366261ce2756ce863507dbf965a1487904b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 28/58] fix: scale the previous weights in the risk of risk
 budgeting

---
 src/skfolio/optimization/convex/_risk_budgeting.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 6e3c779..80946e0 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -536,10 +536,7 @@ class RiskBudgeting(ConvexOptimization):
             elif arg_name == "w":
                 args[arg_name] = w
             elif arg_name == "factor":
-                if self.risk_measure in [RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT]:
-                    args[arg_name] = factor
-                else:
-                    args[arg_name] = cp.Constant(1)
+                args[arg_name] = factor
             else:
                 args[arg_name] = getattr(self, arg_name)
         risk, constraints_i = risk_func(**args)
-- 
2.43.0


From eafa14a70a214307e1d41711d44b7ca483b617c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 29/58] fix: refuse hierarchical minimum weights that sum above
 one

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 6fbd4a8..3a4fb6e 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -360,6 +360,10 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(min_weights < 0):
                 raise ValueError("`min_weights` must be strictly positive")
+            if np.sum(min_weights) > 1 + 1e-8:
+                raise ValueError(
+                    "The sum of `min_weights` must be less than or equal to 1.0"
+                )
 
         if self.max_weights is None:
             max_weights = np.ones(n_assets)
-- 
2.43.0


From eda5b7a1a834ebc08c182be5c1f7317c026fe6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 30/58] fix: avoid undefined weights when a whole cluster is
 capped at zero

---
 src/skfolio/optimization/cluster/hierarchical/_hrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_hrp.py b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
index fded2bb..46b3a2c 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_hrp.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
@@ -424,6 +424,9 @@ def _apply_weight_constraints_to_split_factor(
     value : float
         The transformed split factor alpha incorporating the weight constraints.
     """
+    if weights[left_cluster[0]] == 0:
+        # Nothing left to split
+        return alpha
     alpha = min(
         np.sum(max_weights[left_cluster]) / weights[left_cluster[0]],
         max(np.sum(min_weights[left_cluster]) / weights[left_cluster[0]], alpha),
-- 
2.43.0


From 3ab8d512b0381929f3ba823dc2f7cbe9506fb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 31/58] fix: accept costs, fees and previous weights as
 dictionaries in hierarchical optimisation

---
 .../cluster/hierarchical/_base.py             | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 3a4fb6e..f27421a 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -299,13 +299,18 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             The risk measure of a theoretical portfolio defined by the weights
             vector.
         """
-        ptf = Portfolio(
-            X=prior_model.returns,
-            weights=weights,
-            transaction_costs=self.transaction_costs,
-            management_fees=self.management_fees,
-            previous_weights=self.previous_weights,
-        )
+        costs = {
+            "transaction_costs": self.transaction_costs,
+            "management_fees": self.management_fees,
+            "previous_weights": self.previous_weights,
+        }
+        for name, value in costs.items():
+            if isinstance(value, dict):
+                # The prior returns don't hold the assets names
+                costs[name] = self._clean_input(
+                    value, n_assets=len(weights), fill_value=0, name=name
+                )
+        ptf = Portfolio(X=prior_model.returns, weights=weights, **costs)
         if self.risk_measure in [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION]:
             risk = ptf.variance_from_assets(assets_covariance=prior_model.covariance)
             if self.risk_measure == RiskMeasure.STANDARD_DEVIATION:
-- 
2.43.0


From 794680f03caded5d080c27258212078b4217740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 32/58] fix: keep every factor column when assets are selected

---
 src/skfolio/model_selection/_validation.py | 2 +-
 src/skfolio/optimization/cluster/_nco.py   | 2 +-
 src/skfolio/utils/tools.py                 | 8 ++++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 6035bd9..19e3233 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -130,7 +130,7 @@ def cross_val_predict(
     """
     params = {} if params is None else params
 
-    X, y = safe_split(X, y, indices=column_indices, axis=1)
+    X, _ = safe_split(X, indices=column_indices, axis=1)
     X, y = sku.indexable(X, y)
 
     if _routing_enabled():
diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7ba3eb3..b466d3b 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -356,7 +356,7 @@ class NestedClustersOptimization(BaseOptimization):
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
-            X, y = skv.validate_data(self, X, y)
+            X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
         else:
             X = skv.validate_data(self, X)
diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2621828..785bfdf 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -610,7 +610,11 @@ def fit_single_estimator(
     fit_params = fit_params if fit_params is not None else {}
     fit_params = _check_method_params(X, params=fit_params, indices=indices, axis=axis)
 
-    X, y = safe_split(X, y, indices=indices, axis=axis)
+    if axis == 1:
+        # `y` doesn't hold one column per asset
+        X, _ = safe_split(X, indices=indices, axis=axis)
+    else:
+        X, y = safe_split(X, y, indices=indices, axis=axis)
     estimator.fit(X, y, **fit_params)
     return estimator
 
@@ -665,7 +669,7 @@ def fit_and_predict(
     fit_params = fit_params if fit_params is not None else {}
     fit_params = _check_method_params(X, params=fit_params, indices=train)
 
-    X, y = safe_split(X, y, indices=column_indices, axis=1)
+    X, _ = safe_split(X, indices=column_indices, axis=1)
     X_train, y_train = safe_split(X, y, indices=train, axis=0)
     if y_train is None:
         estimator.fit(X_train, **fit_params)
-- 
2.43.0


From 5a451173e5a8f60649d693e3de0f7d6c55098f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 33/58] fix: allow replacing a named estimator of a stacking
 optimisation

---
 src/skfolio/optimization/ensemble/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/ensemble/_base.py b/src/skfolio/optimization/ensemble/_base.py
index 544c455..aef3609 100644
--- a/src/skfolio/optimization/ensemble/_base.py
+++ b/src/skfolio/optimization/ensemble/_base.py
@@ -57,7 +57,7 @@ class BaseComposition(skb.BaseEstimator, ABC):
             # elements of length 2
             with suppress(TypeError):
                 item_names, _ = zip(*items, strict=True)
-                for name in params:
+                for name in list(params):
                     if "__" not in name and name in item_names:
                         self._replace_estimator(attr, name, params.pop(name))
 
-- 
2.43.0


From 31363c72077eebbf4360d18c2b63a36b6968ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 34/58] fix: keep asset names when nested clusters predict
 without cross-validation

---
 src/skfolio/optimization/cluster/_nco.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index b466d3b..3a41f9f 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -27,7 +27,11 @@ from skfolio.measures import RatioMeasure
 from skfolio.model_selection import BaseCombinatorialCV, cross_val_predict
 from skfolio.optimization._base import BaseOptimization
 from skfolio.optimization.convex import MeanRisk
-from skfolio.utils.tools import check_estimator, fit_single_estimator
+from skfolio.utils.tools import (
+    check_estimator,
+    fit_single_estimator,
+    safe_indexing,
+)
 
 
 class NestedClustersOptimization(BaseOptimization):
@@ -355,6 +359,7 @@ class NestedClustersOptimization(BaseOptimization):
 
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
+        X_named = X
         if y is not None:
             X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
@@ -370,7 +375,9 @@ class NestedClustersOptimization(BaseOptimization):
             else:
                 if cv_predictions is None:
                     fitted_inner_estimator = next(fitted_inner_estimators)
-                    pred = fitted_inner_estimator.predict(X[test_indices, cluster_ids])
+                    pred = fitted_inner_estimator.predict(
+                        safe_indexing(X_named, indices=cluster_ids, axis=1)
+                    )
                 else:
                     pred = next(cv_predictions)
                     if isinstance(self.cv, BaseCombinatorialCV):
-- 
2.43.0


From e103c028ba6d6c7607898436bba94b18b350fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 35/58] fix: record the asset names in a stacking optimisation
 without cross-validation

---
 src/skfolio/optimization/ensemble/_stacking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/optimization/ensemble/_stacking.py b/src/skfolio/optimization/ensemble/_stacking.py
index 5c957a9..e14de12 100644
--- a/src/skfolio/optimization/ensemble/_stacking.py
+++ b/src/skfolio/optimization/ensemble/_stacking.py
@@ -308,6 +308,7 @@ class StackingOptimization(BaseOptimization, BaseComposition):
             X_pred = np.array(
                 [estimator.predict(X) for estimator in self.estimators_]
             ).T
+            _ = skv.validate_data(self, X)
         else:
             cv = sks.check_cv(self.cv)
             if hasattr(cv, "random_state") and cv.random_state is None:
-- 
2.43.0


From 12a95e17ca6ee244d07ecd0f040c47f137dbe537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 36/58] fix: keep the covariance of a single asset
 two-dimensional

---
 src/skfolio/moments/covariance/_empirical_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_empirical_covariance.py b/src/skfolio/moments/covariance/_empirical_covariance.py
index a74d6eb..9fe75ec 100644
--- a/src/skfolio/moments/covariance/_empirical_covariance.py
+++ b/src/skfolio/moments/covariance/_empirical_covariance.py
@@ -96,6 +96,6 @@ class EmpiricalCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         if self.window_size is not None:
             X = X[-int(self.window_size) :]
-        covariance = np.cov(X.T, ddof=self.ddof)
+        covariance = np.atleast_2d(np.cov(X.T, ddof=self.ddof))
         self._set_covariance(covariance)
         return self
-- 
2.43.0


From 0ebc196f391b654878cda8c54606badc90ef5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 37/58] fix: leave the caller's implied volatilities unchanged

---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 787999d..7581259 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -275,7 +275,7 @@ class ImpliedCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         _, n_assets = X.shape
         implied_vol = check_implied_vol(implied_vol=implied_vol, X=X)
-        implied_vol /= np.sqrt(self.annualized_factor)
+        implied_vol = implied_vol / np.sqrt(self.annualized_factor)
 
         if self.volatility_risk_premium_adj is not None:
             if np.isscalar(self.volatility_risk_premium_adj):
-- 
2.43.0


From 57f75419e9538e672352565b764f97210df7e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 38/58] fix: refuse negative implied volatilities

---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 7581259..f09a482 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -452,6 +452,6 @@ def check_implied_vol(implied_vol: npt.ArrayLike, X: npt.ArrayLike) -> np.ndarra
                 f"expected {(n_observations, n_assets)}"
             )
 
-    skv.check_non_negative((n_observations, n_assets), "`implied_vol`")
+    skv.check_non_negative(implied_vol, "`implied_vol`")
     # noinspection PyTypeChecker
     return implied_vol
-- 
2.43.0


From a5099faac4753bdaf6dfb97f8646a6f5d701368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:45 +0000
Subject: [PATCH 39/58] fix: evaluate the eigenvalue density on the eigenvalue
 grid when denoising

---
 src/skfolio/moments/covariance/_denoise_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index 85ac854..4e20cb6 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -163,7 +163,7 @@ class DenoiseCovariance(BaseCovariance):
                 e_val.reshape(-1, 1)
             )
             # noinspection PyUnresolvedReferences
-            pdf_1 = np.exp(kde.score_samples(pdf_0.reshape(-1, 1)))
+            pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1)))
             return np.sum((pdf_1 - pdf_0) ** 2)
 
         # noinspection PyTypeChecker
-- 
2.43.0


From 50b58e4cd64319cd64debbb7b43c20a2f619db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:31 +0000
Subject: [PATCH 40/58] fix: compare the two eigenvalue densities point by
 point when denoising

---
 src/skfolio/moments/covariance/_denoise_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index 4e20cb6..5a5c654 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -164,7 +164,7 @@ class DenoiseCovariance(BaseCovariance):
             )
             # noinspection PyUnresolvedReferences
             pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1)))
-            return np.sum((pdf_1 - pdf_0) ** 2)
+            return np.sum((pdf_1 - pdf_0.ravel()) ** 2)
 
         # noinspection PyTypeChecker
         res = sco.minimize(_marchenko, x0=0.5, bounds=((1e-5, 1 - 1e-5),))
-- 
2.43.0


From d4527a641ba2a56aca924b39bd80b3a5b71db0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:48 +0000
Subject: [PATCH 41/58] fix: compute Black-Litterman confidences on a float
 copy of the user's values

---
 src/skfolio/prior/_black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index f7068df..21f2cc8 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -233,7 +233,7 @@ class BlackLitterman(BasePrior):
             )
         else:
             # Idzorek's method using Jay Walters closed form solution
-            view_confidences = np.asarray(self.view_confidences)
+            view_confidences = np.array(self.view_confidences, dtype=float)
             if np.any(view_confidences < 0) or np.any(view_confidences > 1):
                 raise ValueError(
                     "all values of view_confidences must be between 0 and 1"
-- 
2.43.0


From c3b5f43fd6678d6a46542753fef2ea31caeb3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:48 +0000
Subject: [PATCH 42/58] fix: return the fitted estimator from the loading
 matrix regression

---
 src/skfolio/prior/_factor_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/prior/_factor_model.py b/src/skfolio/prior/_factor_model.py
index 165bf91..28154e7 100644
--- a/src/skfolio/prior/_factor_model.py
+++ b/src/skfolio/prior/_factor_model.py
@@ -140,6 +140,7 @@ class LoadingMatrixRegression(BaseLoadingMatrix):
                 for i in range(n_assets)
             ]
         )
+        return self
 
 
 class FactorModel(BasePrior):
-- 
2.43.0


From 325c919de4b8468818063e9ca5fc478ca71caa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:48 +0000
Subject: [PATCH 43/58] fix: keep the fitted moments unchanged in the
 log-normal empirical prior

---
 src/skfolio/prior/_empirical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/prior/_empirical.py b/src/skfolio/prior/_empirical.py
index 871d20c..7a16239 100644
--- a/src/skfolio/prior/_empirical.py
+++ b/src/skfolio/prior/_empirical.py
@@ -183,8 +183,8 @@ class EmpiricalPrior(BasePrior):
 
             # Using the property of aggregation across time we scale this distribution
             # to the investment horizon by the “square-root rule”.
-            mu *= self.investment_horizon
-            covariance *= self.investment_horizon
+            mu = mu * self.investment_horizon
+            covariance = covariance * self.investment_horizon
 
             # We convert it into a distribution of linear returns over the investment
             # horizon
-- 
2.43.0


From 828c61336e3cbcfd3dbecf3c14e0f16708ba1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:48 +0000
Subject: [PATCH 44/58] fix: leave the risk budget given by the user unchanged

---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 80946e0..249477c 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -491,7 +491,7 @@ class RiskBudgeting(ConvexOptimization):
                 fill_value=1e-10,
                 name="risk_budget",
             )
-            risk_budget[risk_budget == 0] = 1e-10
+            risk_budget = np.where(risk_budget == 0, 1e-10, risk_budget)
 
         # Variables
         w = cp.Variable(n_assets)
-- 
2.43.0


From aefe24204b66b83dae29a8110eab0bd6cf23455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:48 +0000
Subject: [PATCH 45/58] fix: cluster two assets with the default number of
 clusters

---
 src/skfolio/utils/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/utils/stats.py b/src/skfolio/utils/stats.py
index d2a405b..fc7bfa1 100644
--- a/src/skfolio/utils/stats.py
+++ b/src/skfolio/utils/stats.py
@@ -472,6 +472,9 @@ def compute_optimal_n_clusters(distance: np.ndarray, linkage_matrix: np.ndarray)
     """
     cut_tree = sch.cut_tree(linkage_matrix)
     n = cut_tree.shape[1]
+    if n < 3:
+        # The two-order difference needs three levels
+        return n
     max_clusters = min(n, max(8, round(np.sqrt(n))))
     dispersion = []
     for k in range(max_clusters):
-- 
2.43.0


From 59f9f8f6b2eb7a53248af8b0381c0d0fd3974044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:27 +0000
Subject: [PATCH 46/58] fix: keep the distance correlation defined when
 rounding makes the sum negative

---
 src/skfolio/distance/_distance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distance/_distance.py b/src/skfolio/distance/_distance.py
index 2be51f2..104a241 100644
--- a/src/skfolio/distance/_distance.py
+++ b/src/skfolio/distance/_distance.py
@@ -389,7 +389,8 @@ class DistanceCorrelation(BaseDistance):
         y = scd.squareform(scd.pdist(y.reshape(-1, 1)))
         x = x - x.mean(axis=0)[np.newaxis, :] - x.mean(axis=1)[:, np.newaxis] + x.mean()
         y = y - y.mean(axis=0)[np.newaxis, :] - y.mean(axis=1)[:, np.newaxis] + y.mean()
-        value = np.sqrt((x * y).sum()) / np.sqrt(
+        # the sum is non-negative up to rounding errors
+        value = np.sqrt(max(0.0, (x * y).sum())) / np.sqrt(
             np.sqrt((x**2).sum()) * np.sqrt((y**2).sum())
         )
         return value
-- 
2.43.0


From 92495d57f992c932730d292b7f096c29773a8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:27 +0000
Subject: [PATCH 47/58] fix: use absolute correlations in DropCorrelated when
 asked to

---
 src/skfolio/pre_selection/_drop_correlated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/pre_selection/_drop_correlated.py b/src/skfolio/pre_selection/_drop_correlated.py
index cb293c8..7bd5bde 100644
--- a/src/skfolio/pre_selection/_drop_correlated.py
+++ b/src/skfolio/pre_selection/_drop_correlated.py
@@ -80,6 +80,8 @@ class DropCorrelated(skf.SelectorMixin, skb.BaseEstimator):
 
         n_assets = X.shape[1]
         corr = np.corrcoef(X.T)
+        if self.absolute:
+            corr = np.abs(corr)
         mean_corr = corr.mean(axis=0)
 
         triu_idx = np.triu_indices(n_assets, 1)
-- 
2.43.0


From e931d69134c2a62e901a81f4ddf7c5a7bd37448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:27 +0000
Subject: [PATCH 48/58] fix: stop adding fronts once min_n_assets is reached in
 SelectNonDominated

---
 src/skfolio/pre_selection/_select_non_dominated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/pre_selection/_select_non_dominated.py b/src/skfolio/pre_selection/_select_non_dominated.py
index 59b8ec8..1c8f772 100644
--- a/src/skfolio/pre_selection/_select_non_dominated.py
+++ b/src/skfolio/pre_selection/_select_non_dominated.py
@@ -147,7 +147,7 @@ class SelectNonDominated(skf.SelectorMixin, skb.BaseEstimator):
         while i < len(fronts):
             if (
                 self.min_n_assets is not None
-                and len(new_assets_idx) > self.min_n_assets
+                and len(new_assets_idx) >= self.min_n_assets
             ):
                 break
             for idx in fronts[i]:
-- 
2.43.0


From ff2bd85e7081caa058168a9fe39f92c9ef24761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:27 +0000
Subject: [PATCH 49/58] fix: count only asset prices against nan_threshold in
 prices_to_returns

---
 src/skfolio/preprocessing/_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index 130bc4d..d00caec 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -105,7 +105,7 @@ def prices_to_returns(
         nan_threshold = float(nan_threshold)
         if not 0 < nan_threshold <= 1:
             raise ValueError("`nan_threshold` must be between 0 and 1")
-        count_nan = df.isna().sum(axis=1)
+        count_nan = df[X.columns].isna().sum(axis=1)
         to_drop = count_nan[count_nan > n_assets * nan_threshold].index
         if len(to_drop) > 0:
             df.drop(to_drop, axis=0, inplace=True)
-- 
2.43.0


From 4729bb05d11c875871d607cbe68805c4a53b7a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:27 +0000
Subject: [PATCH 50/58] fix: keep missing prices after the inceptions when
 fill_nan is off

---
 src/skfolio/preprocessing/_returns.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index d00caec..58972cd 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -114,10 +114,13 @@ def prices_to_returns(
     if fill_nan:
         df.ffill(inplace=True)
     # Drop rows according to drop_inceptions_nan
-    # noinspection PyTypeChecker
-    df.dropna(how="any" if drop_inceptions_nan else "all", inplace=True)
+    if drop_inceptions_nan:
+        # keep the missing values that follow the inceptions
+        df = df[df.notna().cummax().all(axis=1)]
+    else:
+        df = df.dropna(how="all")
     # Drop column if all its values are missing
-    df.dropna(axis=1, how="all", inplace=True)
+    df = df.dropna(axis=1, how="all")
 
     # returns
     all_returns = df.pct_change(fill_method=None).iloc[1:]
-- 
2.43.0


From 2e983f37ddd8509fb68da88cc00f6f6c0f3115bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:27 +0000
Subject: [PATCH 51/58] fix: scale the empirical covariance uncertainty set by
 1/(T-1)

---
 src/skfolio/uncertainty_set/_empirical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/uncertainty_set/_empirical.py b/src/skfolio/uncertainty_set/_empirical.py
index 154473a..04f3894 100644
--- a/src/skfolio/uncertainty_set/_empirical.py
+++ b/src/skfolio/uncertainty_set/_empirical.py
@@ -249,7 +249,8 @@ class EmpiricalCovarianceUncertaintySet(BaseCovarianceUncertaintySet):
 
         sigma = np.diag(
             np.diag(
-                n_observations
+                n_observations**2
+                / (n_observations - 1)
                 * (np.identity(n_assets**2) + commutation_matrix(sigma))
                 @ np.kron(sigma, sigma)
             )
-- 
2.43.0


From 05b01619e9e6c253b4f1574aa11df2a55fabc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:06:13 +0000
Subject: [PATCH 52/58] fix: keep the full empirical covariance uncertainty
 shape when diagonal is off

---
 src/skfolio/uncertainty_set/_empirical.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/skfolio/uncertainty_set/_empirical.py b/src/skfolio/uncertainty_set/_empirical.py
index 04f3894..0036b9f 100644
--- a/src/skfolio/uncertainty_set/_empirical.py
+++ b/src/skfolio/uncertainty_set/_empirical.py
@@ -247,14 +247,14 @@ class EmpiricalCovarianceUncertaintySet(BaseCovarianceUncertaintySet):
         if self.diagonal:
             sigma = np.diag(np.diag(sigma))
 
-        sigma = np.diag(
-            np.diag(
-                n_observations**2
-                / (n_observations - 1)
-                * (np.identity(n_assets**2) + commutation_matrix(sigma))
-                @ np.kron(sigma, sigma)
-            )
+        sigma = np.asarray(
+            n_observations**2
+            / (n_observations - 1)
+            * (np.identity(n_assets**2) + commutation_matrix(sigma))
+            @ np.kron(sigma, sigma)
         )
+        if self.diagonal:
+            sigma = np.diag(np.diag(sigma))
 
         self.uncertainty_set_ = UncertaintySet(k=k, sigma=sigma)
         return self
-- 
2.43.0


From 37adc84ab0a111e97f91bd1d3cdb7cdb38eb58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:50 +0000
Subject: [PATCH 53/58] fix: forget the problem of a failed fit before fitting
 a convex optimizer again

The risk expressions built during a fit are cached on the object and were only
cleared once the solver succeeded. After a fit that failed, the next fit of the
same object reused them and left out the constraints that define them.
---
 src/skfolio/optimization/convex/_distributionally_robust.py | 1 +
 src/skfolio/optimization/convex/_mean_risk.py               | 1 +
 src/skfolio/optimization/convex/_risk_budgeting.py          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/convex/_distributionally_robust.py b/src/skfolio/optimization/convex/_distributionally_robust.py
index d173810..e7ea739 100644
--- a/src/skfolio/optimization/convex/_distributionally_robust.py
+++ b/src/skfolio/optimization/convex/_distributionally_robust.py
@@ -337,6 +337,7 @@ class DistributionallyRobustCVaR(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 1165efe..3299cd0 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -772,6 +772,7 @@ class MeanRisk(ConvexOptimization):
         self._validation()
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 249477c..ec6d805 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -461,6 +461,7 @@ class RiskBudgeting(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
-- 
2.43.0


From ea4a93261909e544fff2af19065bc025797b4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:05:45 +0000
Subject: [PATCH 54/58] fix: report the worst-case variance of a ratio
 portfolio without dividing it twice by the factor

---
 src/skfolio/optimization/convex/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 8ee8686..342583b 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1136,6 +1136,11 @@ class ConvexOptimization(BaseOptimization, ABC):
                     self.risk_measure
                     in [RiskMeasure.VARIANCE, RiskMeasure.SEMI_VARIANCE]
                     and "risk" in problem_values
+                    # The worst-case variance is already 1-homogeneous
+                    and not (
+                        self.risk_measure == RiskMeasure.VARIANCE
+                        and self.covariance_uncertainty_set_estimator is not None
+                    )
                 ):
                     problem_values["risk"] /= factor.value
 
-- 
2.43.0


From 6d0d65f21f0eac429a2516cb7053636504925d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:53 +0000
Subject: [PATCH 55/58] fix: invert the pair copula in the direction of the
 sampled asset of a vine

Sampling an asset on the right of an edge used the conditional distribution
of the left asset given the right one. The two differ for copulas rotated by
90 or 270 degrees, whose samples had their tail in the wrong corner.
---
 .../distribution/multivariate/_vine_copula.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 5f97db1..e1ae057 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -1203,9 +1203,9 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge, x, is_count
                 )
             else:
-                x = np.stack([node.v, edge.node1.pseudo_values]).T
+                x = np.stack([edge.node1.pseudo_values, node.v]).T
                 edge.node2.pseudo_values = _inverse_partial_derivative(
-                    edge, x, is_count
+                    edge, x, is_count, first_margin=True
                 )
         else:
             is_left1, is_left2 = edge.node1.ref.shared_node_is_left(edge.node2.ref)
@@ -1218,8 +1218,8 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge.node1.u = u
                 queue.appendleft((edge.node1, not is_left1))
             else:
-                x = np.stack([node.v, edge.node1.v if is_left1 else edge.node1.u]).T
-                u = _inverse_partial_derivative(edge, x, is_count)
+                x = np.stack([edge.node1.v if is_left1 else edge.node1.u, node.v]).T
+                u = _inverse_partial_derivative(edge, x, is_count, first_margin=True)
                 if is_left2:
                     edge.node2.v = u
                 else:
@@ -1228,12 +1228,12 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
 
 
 def _inverse_partial_derivative(
-    edge: Edge, X: np.ndarray, is_count: bool
+    edge: Edge, X: np.ndarray, is_count: bool, first_margin: bool = False
 ) -> np.ndarray:
     """Inverse partial derivative of an Edge copula."""
     if is_count:
         return np.array([np.nan])
-    return edge.copula.inverse_partial_derivative(X)
+    return edge.copula.inverse_partial_derivative(X, first_margin=first_margin)
 
 
 def _kde_trace(
-- 
2.43.0


From b3e5c86cb96662956f0f2cf96095120d21b6db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:53 +0000
Subject: [PATCH 56/58] fix: accept open-ended conditions in vine sampling
 without fitted margins

---
 src/skfolio/distribution/multivariate/_vine_copula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index e1ae057..354a604 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -802,7 +802,8 @@ class VineCopula(BaseMultivariateDist):
                     u_min = 0.0 if np.isneginf(min_value) else dist.cdf(min_value)
                     u_max = 1.0 if np.isposinf(max_value) else dist.cdf(max_value)
                 else:
-                    u_min, u_max = min_value, max_value
+                    u_min = 0.0 if np.isneginf(min_value) else min_value
+                    u_max = 1.0 if np.isposinf(max_value) else max_value
 
                 # Sample uniformly in the transformed interval.
                 samples = rng.uniform(low=u_min, high=u_max, size=n_samples)
-- 
2.43.0


From 1c448738b4bf0799cf4181dc2e23120c0a813ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:53 +0000
Subject: [PATCH 57/58] fix: route fit parameters of the simulated prior to its
 distribution estimator

---
 src/skfolio/prior/_synthetic_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 37d3b5d..7881004 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -136,7 +136,7 @@ class SyntheticData(BasePrior):
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
         router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            distance_estimator=self.distribution_estimator,
+            distribution_estimator=self.distribution_estimator,
             method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
         )
         return router
-- 
2.43.0


From a09a32f59b8f63a815deac3472e1d6a15afa3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:53 +0000
Subject: [PATCH 58/58] fix: keep the first target of the efficient frontier
 attainable

The first target is one percent above the return of the least risky
portfolio. When all feasible returns are closer than that, it was above the
highest return and the problem was infeasible.
---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 3299cd0..75e299c 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -947,7 +947,7 @@ class MeanRisk(ConvexOptimization):
                     " expected returns"
                 )
             targets = np.linspace(
-                max(min_return, 1e-10) * 1.01,
+                min(max(min_return, 1e-10) * 1.01, max_return),
                 max_return,
                 num=self.efficient_frontier_size,
             )
-- 
2.43.0

