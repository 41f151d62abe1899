From caaaa883736e8ea167cf18342cb1683c63cb2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 01/80] fix: judge rank deficiency relative to each column's
 own scale

A covariate in large or small units (for instance dollars around 1e9) made
the solver drop the intercept and treatment columns as linearly dependent,
so the ATT came back as NaN.
---
 diff_diff/linalg.py | 56 +++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index f5764d8..e4d3527 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -98,9 +98,10 @@ def _detect_rank_deficiency(
     X : ndarray of shape (n, k)
         Design matrix.
     rcond : float, optional
-        Relative condition number threshold for determining rank.
-        Diagonal elements of R smaller than rcond * max(|R_ii|) are treated
-        as zero. If None, uses 1e-07 to match R's qr() default tolerance.
+        Relative threshold for determining rank. Diagonal elements of R not
+        larger than rcond times the norm of the corresponding column of X are
+        treated as zero, so the result does not depend on the units of the
+        columns. If None, uses 1e-07 to match R's qr() default tolerance.
 
     Returns
     -------
@@ -124,28 +125,37 @@ def _detect_rank_deficiency(
     if rcond is None:
         rcond = 1e-07
 
-    # The diagonal of R contains information about linear independence
-    # After pivoting, |R[i,i]| is decreasing
+    # The diagonal of R contains information about linear independence:
+    # |R[i,i]| is the norm of what is left of column pivot[i] after projecting
+    # out the columns before it. Like R's qr(), compare it with that column's
+    # own norm, so that covariates in large or small units are not mistaken
+    # for linear dependence.
     r_diag = np.abs(np.diag(R))
+    independent = r_diag > rcond * np.linalg.norm(X, axis=0)[pivot]
+    rank = int(np.sum(independent))
 
-    # Find numerical rank: count singular values above threshold
-    # The threshold is relative to the largest diagonal element
-    if r_diag[0] == 0:
-        rank = 0
-    else:
-        tol = rcond * r_diag[0]
-        rank = int(np.sum(r_diag > tol))
-
-    # Columns after rank position (in pivot order) are linearly dependent
-    # We need to map back to original column indices
-    if rank < k:
-        dropped_cols = np.sort(pivot[rank:])
-    else:
-        dropped_cols = np.array([], dtype=int)
+    # Map dependent columns back to original column indices
+    dropped_cols = np.sort(pivot[~independent])
 
     return rank, dropped_cols, pivot
 
 
+def _scaled_lstsq(X: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """
+    Least-squares coefficients, solved on columns scaled to unit norm.
+
+    Scaling makes the relative singular value cutoff independent of the units
+    of the columns, in line with _detect_rank_deficiency.
+    """
+    norms = np.linalg.norm(X, axis=0)
+    norms[norms == 0] = 1.0
+    # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
+    coefficients = scipy_lstsq(
+        X / norms, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
+    )[0]
+    return coefficients / norms
+
+
 def _format_dropped_columns(
     dropped_cols: np.ndarray,
     column_names: Optional[List[str]] = None,
@@ -677,10 +687,7 @@ def _solve_ols_numpy(
         X_reduced = X[:, kept_cols]
 
         # Solve the reduced system (now full-rank)
-        # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
-        coefficients_reduced = scipy_lstsq(
-            X_reduced, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
-        )[0]
+        coefficients_reduced = _scaled_lstsq(X_reduced, y)
 
         # Expand coefficients to full size with NaN for dropped columns
         coefficients = _expand_coefficients_with_nan(coefficients_reduced, k, kept_cols)
@@ -697,8 +704,7 @@ def _solve_ols_numpy(
             vcov = _expand_vcov_with_nan(vcov_reduced, k, kept_cols)
     else:
         # Full-rank case: proceed normally
-        # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
-        coefficients = scipy_lstsq(X, y, lapack_driver="gelsd", check_finite=False, cond=1e-07)[0]
+        coefficients = _scaled_lstsq(X, y)
 
         # Compute residuals and fitted values
         fitted = X @ coefficients
-- 
2.43.0


From d4b967eea7edd797e6e59c6d983e2c31c9773ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 02/80] fix: within transformation of unbalanced panels equals
 unit and time dummies

One pass of y - y_i. - y_.t + y_.. only removes two-way fixed effects from a
balanced panel. Demean by turns until convergence, and return exact zeros for
columns the fixed effects absorb.
---
 diff_diff/utils.py | 91 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 69 insertions(+), 22 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..b30cc4a 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1403,6 +1403,61 @@ def demean_by_group(
     return data, n_effects
 
 
+def absorb_fixed_effects(
+    values: np.ndarray,
+    groups: List[np.ndarray],
+    max_iter: int = 10000,
+    tol: float = 1e-13,
+) -> np.ndarray:
+    """
+    Project out one or more sets of group fixed effects (within transformation).
+
+    Demeans by each grouping variable in turn until nothing changes any more,
+    which equals the residuals from a regression on all group dummies for
+    balanced and unbalanced data alike. Columns that the fixed effects absorb
+    completely are returned as exact zeros rather than rounding noise, so that
+    rank detection sees them.
+
+    Parameters
+    ----------
+    values : ndarray of shape (n, k)
+        Columns to transform.
+    groups : list of ndarray of shape (n,)
+        Group labels, one array per set of fixed effects.
+    max_iter : int, default 10000
+        Maximum number of sweeps over the grouping variables.
+    tol : float, default 1e-13
+        Convergence tolerance, relative to the size of each column.
+
+    Returns
+    -------
+    ndarray of shape (n, k)
+        Transformed columns.
+    """
+    values = np.asarray(values, dtype=float)
+    codes = [pd.factorize(np.asarray(g))[0] for g in groups]
+    if any((c < 0).any() for c in codes):
+        raise ValueError("Fixed effect columns must not contain missing values")
+    counts = [np.bincount(c)[:, np.newaxis] for c in codes]
+
+    def demean(x: np.ndarray, c: np.ndarray, n_c: np.ndarray) -> np.ndarray:
+        sums = np.column_stack([np.bincount(c, weights=col) for col in x.T])
+        return x - (sums / n_c)[c]
+
+    out = values - values.mean(axis=0)
+    scale = np.max(np.abs(out), axis=0)
+    for _ in range(max_iter):
+        previous = out
+        for c, n_c in zip(codes, counts):
+            out = demean(out, c, n_c)
+        if np.all(np.max(np.abs(out - previous), axis=0) <= tol * scale):
+            break
+
+    absorbed = np.max(np.abs(out), axis=0) <= 1e-10 * scale
+    out[:, absorbed] = 0.0
+    return out
+
+
 def within_transform(
     data: pd.DataFrame,
     variables: List[str],
@@ -1414,7 +1469,8 @@ def within_transform(
     """
     Apply two-way within transformation to remove unit and time fixed effects.
 
-    Computes: y_it - y_i. - y_.t + y_.. for each variable.
+    Computes y_it - y_i. - y_.t + y_.. for each variable when the panel is
+    balanced, and the residuals from unit and time dummies in general.
 
     This is the standard fixed effects transformation for panel data that
     removes both unit-specific and time-specific effects.
@@ -1455,30 +1511,21 @@ def within_transform(
     if not inplace:
         data = data.copy()
 
-    # Cache groupby objects for efficiency
-    unit_grouper = data.groupby(unit, sort=False)
-    time_grouper = data.groupby(time, sort=False)
+    transformed = absorb_fixed_effects(
+        data[variables].to_numpy(dtype=float),
+        [data[unit].to_numpy(), data[time].to_numpy()],
+    )
 
     if inplace:
-        # Modify columns in place
-        for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            data[var] = data[var] - unit_means - time_means + grand_mean
+        for j, var in enumerate(variables):
+            data[var] = transformed[:, j]
     else:
-        # Build all demeaned columns at once to avoid DataFrame fragmentation
-        demeaned_data = {}
-        for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            demeaned_data[f"{var}{suffix}"] = (
-                data[var] - unit_means - time_means + grand_mean
-            ).values
-
-        # Add all columns at once
-        demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
+        # Add all columns at once to avoid DataFrame fragmentation
+        demeaned_df = pd.DataFrame(
+            transformed,
+            columns=[f"{var}{suffix}" for var in variables],
+            index=data.index,
+        )
         data = pd.concat([data, demeaned_df], axis=1)
 
     return data
-- 
2.43.0


From 10ee8758ed439d6fac8ec202abc780fdffc72d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 03/80] fix: TwoWayFixedEffects demeans the treatment x post
 regressor

Regressing the demeaned outcome on the raw interaction attenuated the ATT (by
a factor of three in a half-treated two-period panel).
---
 diff_diff/twfe.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..6c8fcdc 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -96,19 +96,29 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         # Use unit-level clustering if not specified (use local variable to avoid mutation)
         cluster_var = self.cluster if self.cluster is not None else unit
 
-        # Demean data (within transformation for fixed effects)
-        data_demeaned = self._within_transform(data, outcome, unit, time, covariates)
-
         # Create treatment × post interaction
         # For staggered designs, we'd need to identify treatment timing per unit
         # For now, assume standard 2-period design
-        data_demeaned["_treatment_post"] = (
-            data_demeaned[treatment] * data_demeaned[time]
+        working_data = data.copy()
+        working_data["_treatment_post"] = data[treatment] * data[time]
+
+        # Demean data (within transformation for fixed effects). The interaction
+        # is demeaned like every other variable: a regression of the demeaned
+        # outcome on the raw interaction would attenuate the ATT.
+        regressors = list(covariates or [])
+        if np.isin(data[time].unique(), [0, 1]).all():
+            regressors.append("_treatment_post")
+        data_demeaned = self._within_transform(
+            working_data, outcome, unit, time, regressors
         )
+        if "_treatment_post_demeaned" not in data_demeaned:
+            # treatment × time is only a treatment × post interaction for a 0/1
+            # time column; other codings keep the untransformed product
+            data_demeaned["_treatment_post_demeaned"] = data_demeaned["_treatment_post"]
 
         # Extract variables for regression
         y = data_demeaned[f"{outcome}_demeaned"].values
-        X_list = [data_demeaned["_treatment_post"].values]
+        X_list = [data_demeaned["_treatment_post_demeaned"].values]
 
         if covariates:
             for cov in covariates:
-- 
2.43.0


From 6aae487513ff1d02b64d6e74520f8566b6091f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 04/80] fix: absorbed fixed effects are projected out of all
 regressors

Only the outcome and covariates were demeaned (once per absorbed column), so
absorb= did not match the equivalent dummies unless the absorbed effects were
balanced across treatment and time.
---
 diff_diff/estimators.py | 94 ++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 29 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..cfcdd53 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -26,9 +26,9 @@ from diff_diff.linalg import (
 from diff_diff.results import DiDResults, MultiPeriodDiDResults, PeriodEffect
 from diff_diff.utils import (
     WildBootstrapResults,
+    absorb_fixed_effects,
     compute_confidence_interval,
     compute_p_value,
-    demean_by_group,
     validate_binary,
     wild_bootstrap_se,
 )
@@ -228,25 +228,10 @@ class DifferenceInDifferences:
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
 
-        # Handle absorbed fixed effects (within-transformation)
         working_data = data.copy()
-        absorbed_vars = []
-        n_absorbed_effects = 0
+        n_absorbed_effects = sum(data[ab].nunique() - 1 for ab in absorb or [])
 
-        if absorb:
-            # Apply within-transformation for each absorbed variable
-            # Only demean outcome and covariates, NOT treatment/time indicators
-            # Treatment is typically time-invariant (within unit), and time is
-            # unit-invariant, so demeaning them would create multicollinearity
-            vars_to_demean = [outcome] + (covariates or [])
-            for ab_var in absorb:
-                working_data, n_fe = demean_by_group(
-                    working_data, vars_to_demean, ab_var, inplace=True
-                )
-                n_absorbed_effects += n_fe
-                absorbed_vars.append(ab_var)
-
-        # Extract variables (may be demeaned if absorb was used)
+        # Extract variables
         y = working_data[outcome].values.astype(float)
         d = working_data[treatment].values.astype(float)
         t = working_data[time].values.astype(float)
@@ -274,9 +259,13 @@ class DifferenceInDifferences:
                     X = np.column_stack([X, dummies[col].values.astype(float)])
                     var_names.append(col)
 
+        # Handle absorbed fixed effects (within-transformation)
+        if absorb:
+            y, X, var_names = self._absorb_design(y, X, var_names, data, absorb, n_main=2)
+
         # Extract ATT index (coefficient on interaction term)
-        att_idx = 3  # Index of interaction term
         att_var_name = f"{treatment}:{time}"
+        att_idx = var_names.index(att_var_name)  # Index of interaction term
         assert var_names[att_idx] == att_var_name, (
             f"ATT index mismatch: expected '{att_var_name}' at index {att_idx}, "
             f"but found '{var_names[att_idx]}'"
@@ -358,6 +347,52 @@ class DifferenceInDifferences:
 
         return self.results_
 
+    def _absorb_design(
+        self,
+        y: np.ndarray,
+        X: np.ndarray,
+        var_names: List[str],
+        data: pd.DataFrame,
+        absorb: List[str],
+        n_main: int,
+    ) -> Tuple[np.ndarray, np.ndarray, List[str]]:
+        """
+        Project the absorbed fixed effects out of the outcome and all regressors.
+
+        Outcome and regressors must be transformed alike for the estimates to
+        equal those with dummy variables. Main effects that the fixed effects
+        absorb (such as treatment under unit effects) are left out of the design.
+
+        Parameters
+        ----------
+        y : np.ndarray
+            Outcome vector.
+        X : np.ndarray
+            Design matrix with the intercept first, then n_main main effects.
+        var_names : list of str
+            Names of the columns of X.
+        data : pd.DataFrame
+            Data holding the columns to absorb.
+        absorb : list of str
+            Columns to absorb.
+        n_main : int
+            Number of main-effect columns after the intercept.
+
+        Returns
+        -------
+        tuple
+            (y, X, var_names) after the transformation.
+        """
+        within = absorb_fixed_effects(
+            np.column_stack([y, X[:, 1:]]), [data[ab].to_numpy() for ab in absorb]
+        )
+        X = np.column_stack([X[:, 0], within[:, 1:]])
+        keep = [
+            i for i in range(X.shape[1])
+            if not 1 <= i <= n_main or np.any(X[:, i])
+        ]
+        return within[:, 0], X[:, keep], [var_names[i] for i in keep]
+
     def _fit_ols(
         self, X: np.ndarray, y: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, float]:
@@ -825,17 +860,8 @@ class MultiPeriodDiD(DifferenceInDifferences):
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
 
-        # Handle absorbed fixed effects (within-transformation)
         working_data = data.copy()
-        n_absorbed_effects = 0
-
-        if absorb:
-            vars_to_demean = [outcome] + (covariates or [])
-            for ab_var in absorb:
-                working_data, n_fe = demean_by_group(
-                    working_data, vars_to_demean, ab_var, inplace=True
-                )
-                n_absorbed_effects += n_fe
+        n_absorbed_effects = sum(data[ab].nunique() - 1 for ab in absorb or [])
 
         # Extract outcome and treatment
         y = working_data[outcome].values.astype(float)
@@ -881,6 +907,16 @@ class MultiPeriodDiD(DifferenceInDifferences):
                     X = np.column_stack([X, dummies[col].values.astype(float)])
                     var_names.append(col)
 
+        # Handle absorbed fixed effects (within-transformation)
+        if absorb:
+            y, X, var_names = self._absorb_design(
+                y, X, var_names, data, absorb, n_main=1 + len(non_ref_periods)
+            )
+            interaction_indices = {
+                period: var_names.index(f"{treatment}:period_{period}")
+                for period in post_periods
+            }
+
         # Fit OLS using unified backend
         # Pass cluster_ids to solve_ols for proper vcov computation
         # This handles rank-deficient matrices by returning NaN for dropped columns
-- 
2.43.0


From 2c7bb41a1f8de46ee1ef925f42b59158ddfae761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 05/80] fix: wild cluster bootstrap imposes the null hypothesis

Residuals and fitted values came from the unrestricted regression, so the
bootstrap t-statistics were centred on the estimate and even overwhelming
effects got p-values around 0.5.
---
 diff_diff/utils.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index b30cc4a..8e5dd3d 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -445,16 +445,18 @@ def wild_bootstrap_se(
     t_stat_original = (original_coef - null_hypothesis) / se_original
 
     # Step 2: Impose null hypothesis (restricted estimation)
-    # Create restricted y: y_restricted = y - X[:, coef_index] * null_hypothesis
-    # This imposes the null that the coefficient equals null_hypothesis
+    # Fix the coefficient at null_hypothesis: move its contribution to the left-hand
+    # side and regress on the remaining columns
     y_restricted = y - X[:, coefficient_index] * null_hypothesis
-
-    # Fit restricted model (but we need to drop the column for the restricted coef)
-    # Actually, for WCR bootstrap we keep all columns but impose the null via residuals
-    # Re-estimate with the restricted dependent variable
-    beta_restricted, residuals_restricted, _ = _solve_ols_linalg(
-        X, y_restricted, return_vcov=False
-    )
+    X_restricted = np.delete(X, coefficient_index, axis=1)
+    if X_restricted.shape[1] > 0:
+        _, residuals_restricted, _ = _solve_ols_linalg(
+            X_restricted, y_restricted, return_vcov=False,
+            rank_deficient_action="silent",
+        )
+    else:
+        residuals_restricted = y_restricted
+    fitted_restricted = y - residuals_restricted
 
     # Create cluster-to-observation mapping for efficiency
     cluster_map = {c: np.where(cluster_ids == c)[0] for c in unique_clusters}
@@ -473,8 +475,8 @@ def wild_bootstrap_se(
         for g, indices in enumerate(cluster_indices):
             obs_weights[indices] = cluster_weights[g]
 
-        # Construct bootstrap sample: y* = X @ beta_restricted + e_restricted * weights
-        y_star = X @ beta_restricted + residuals_restricted * obs_weights
+        # Construct bootstrap sample under the null: y* = fitted + e_restricted * weights
+        y_star = fitted_restricted + residuals_restricted * obs_weights
 
         # Estimate bootstrap coefficients with cluster-robust SE
         beta_star, residuals_star, vcov_star = _solve_ols_linalg(
@@ -490,8 +492,10 @@ def wild_bootstrap_se(
             bootstrap_t_stats[b] = 0.0
 
     # Step 4: Compute bootstrap p-value
-    # P-value is proportion of |t*| >= |t_original|
-    p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
+    # P-value is proportion of |t*| >= |t_original|. Draws with all weights equal
+    # reproduce t_original exactly, so rounding must not decide these ties.
+    threshold = np.abs(t_stat_original) * (1 - 1e-9)
+    p_value = np.mean(np.abs(bootstrap_t_stats) >= threshold)
 
     # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
     p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
@@ -500,7 +504,9 @@ def wild_bootstrap_se(
     # SE from standard deviation of bootstrap coefficient distribution
     se_bootstrap = float(np.std(bootstrap_coefs, ddof=1))
 
-    # Percentile confidence interval from bootstrap distribution
+    # The bootstrap coefficients scatter around the null; recenter them on the
+    # estimate for the percentile confidence interval
+    bootstrap_coefs = original_coef + (bootstrap_coefs - null_hypothesis)
     lower_percentile = alpha / 2 * 100
     upper_percentile = (1 - alpha / 2) * 100
     ci_lower = float(np.percentile(bootstrap_coefs, lower_percentile))
-- 
2.43.0


From 9dd5e13fbb0dbd99df9b14201a1b5c17cea48825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 06/80] fix: refitting without wild bootstrap no longer reports
 the previous bootstrap

---
 diff_diff/estimators.py | 1 +
 diff_diff/twfe.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index cfcdd53..689e582 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -288,6 +288,7 @@ class DifferenceInDifferences:
         att = coefficients[att_idx]
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None
         if self.inference == "wild_bootstrap" and self.cluster is not None:
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 6c8fcdc..e7301d0 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -204,6 +204,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
                     )
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None
         if self.inference == "wild_bootstrap":
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
-- 
2.43.0


From 94e9a0e39cc7114ba9552f3cc3388871ec77a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 07/80] fix: saturated regressions report undefined instead of
 crashing or infinite precision

One observation per parameter raised ZeroDivisionError (HC1) or gave a zero
standard error with a non-NaN t-statistic.
---
 diff_diff/estimators.py | 14 ++++++++++----
 diff_diff/linalg.py     |  7 +++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 689e582..eba4566 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -943,7 +943,7 @@ class MultiPeriodDiD(DifferenceInDifferences):
         # solve_ols returns HC1 by default, so compute homoskedastic if needed
         if not self.robust and self.cluster is None:
             n = len(y)
-            mse = np.sum(residuals**2) / (n - k_effective)
+            mse = np.sum(residuals**2) / (n - k_effective) if n > k_effective else np.nan
             # Use solve() instead of inv() for numerical stability
             # Only compute for identified columns (non-NaN coefficients)
             identified_mask = ~np.isnan(coefficients)
@@ -966,9 +966,15 @@ class MultiPeriodDiD(DifferenceInDifferences):
             idx = interaction_indices[period]
             effect = coefficients[idx]
             se = np.sqrt(vcov[idx, idx])
-            t_stat = effect / se
-            p_value = compute_p_value(t_stat, df=df)
-            conf_int = compute_confidence_interval(effect, se, self.alpha, df=df)
+            if se > 0:
+                t_stat = effect / se
+                p_value = compute_p_value(t_stat, df=df)
+                conf_int = compute_confidence_interval(effect, se, self.alpha, df=df)
+            else:
+                # Zero or undefined SE (degenerate case)
+                t_stat = np.nan
+                p_value = np.nan
+                conf_int = (np.nan, np.nan)
 
             period_effects[period] = PeriodEffect(
                 period=period,
diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index e4d3527..eccc2f5 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -825,6 +825,9 @@ def _compute_robust_vcov_numpy(
     the O(n * G) loop that would be required with explicit iteration.
     """
     n, k = X.shape
+    if n <= k:
+        # Saturated fit: no residual degrees of freedom, variance is not identified
+        return np.full((k, k), np.nan)
     XtX = X.T @ X
 
     if cluster_ids is None:
@@ -1182,7 +1185,7 @@ class LinearRegression:
                 # Rank-deficient: compute vcov for identified coefficients only
                 kept_cols = np.where(~nan_mask)[0]
                 X_reduced = X[:, kept_cols]
-                mse = np.sum(residuals**2) / (n - k_effective)
+                mse = np.sum(residuals**2) / (n - k_effective) if n > k_effective else np.nan
                 try:
                     vcov_reduced = np.linalg.solve(
                         X_reduced.T @ X_reduced, mse * np.eye(k_effective)
@@ -1193,7 +1196,7 @@ class LinearRegression:
                 vcov = _expand_vcov_with_nan(vcov_reduced, k, kept_cols)
             else:
                 # Full rank: standard computation
-                mse = np.sum(residuals**2) / (n - k)
+                mse = np.sum(residuals**2) / (n - k) if n > k else np.nan
                 try:
                     vcov = np.linalg.solve(X.T @ X, mse * np.eye(k))
                 except np.linalg.LinAlgError:
-- 
2.43.0


From 8be6377c87f6af079f86a54fd0e43fd4123523bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 08/80] fix: never-treated units coded np.inf are not a treated
 cohort

CallawaySantAnna and SunAbraham document 0 or np.inf as never-treated, but
treated inf as a cohort: it was listed in groups, counted in n_treated_units
and got its own ATT(g,t) entries.
---
 diff_diff/staggered.py   | 3 +++
 diff_diff/sun_abraham.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..0ead930 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -635,6 +635,9 @@ class CallawaySantAnna(
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
 
+        # Never-treated units may be coded 0 or np.inf; inf is not a cohort
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
+
         # Standardize the first_treat column name for internal use
         # This avoids hardcoding column names in internal methods
         df['first_treat'] = df[first_treat]
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..4e40086 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -486,6 +486,9 @@ class SunAbraham:
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
 
+        # Never-treated units may be coded 0 or np.inf; inf is not a cohort
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
+
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
         treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
-- 
2.43.0


From bb8353fc26535b0680659c3d8573bda495c66867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 09/80] fix: collinear covariates no longer make ATT(g,t)
 undefined

With reg or dr a linearly dependent covariate is dropped with a NaN
coefficient; predictions multiplied by that NaN, so every ATT(g,t) was NaN.
---
 diff_diff/staggered.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 0ead930..39f7c6c 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -142,6 +142,8 @@ def _linear_regression(
         X_with_intercept, y, return_vcov=False,
         rank_deficient_action=rank_deficient_action,
     )
+    # Linearly dependent columns are dropped: they do not enter predictions
+    beta = np.where(np.isnan(beta), 0.0, beta)
 
     return beta, residuals
 
-- 
2.43.0


From 2ba23ed30149f98c595717a3ffd8fa91d2b43c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 10/80] fix: IPW standard errors of ATT(g,t) are those of the
 weighted means

With covariates the control term was the variance of an outcome, not of its
weighted mean (it did not shrink with the number of controls); without
covariates the control variance was divided by the number of treated units.
---
 diff_diff/staggered.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 39f7c6c..db6d8af 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -920,7 +920,6 @@ class CallawaySantAnna(
         """
         n_t = len(treated_change)
         n_c = len(control_change)
-        n_total = n_treated + n_control
 
         if X_treated is not None and X_control is not None and X_treated.shape[1] > 0:
             # Covariate-adjusted IPW estimation
@@ -962,7 +961,7 @@ class CallawaySantAnna(
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
 
             # Variance of weighted control mean
-            weighted_var_c = np.sum(weights_control * (control_change - np.sum(weights_control * control_change)) ** 2)
+            weighted_var_c = np.sum(weights_control ** 2 * (control_change - np.sum(weights_control * control_change)) ** 2)
 
             se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
 
@@ -972,15 +971,13 @@ class CallawaySantAnna(
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Unconditional IPW (reduces to difference in means)
-            p_treat = n_treated / n_total  # unconditional propensity score
-
             att = np.mean(treated_change) - np.mean(control_change)
 
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
             var_c = np.var(control_change, ddof=1) if n_c > 1 else 0.0
 
-            # Adjusted variance for IPW
-            se = np.sqrt(var_t / n_t + var_c * (1 - p_treat) / (n_c * p_treat)) if (n_t > 0 and n_c > 0 and p_treat > 0) else 0.0
+            # Constant propensity weights average the controls equally
+            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
 
             # Influence function (for aggregation)
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-- 
2.43.0


From c6373478dac047510085c673fd94340ac1eba9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 11/80] fix: CallawaySantAnna.set_params(bootstrap_weights=...)
 takes effect

The bootstrap reads the deprecated alias, which set_params left unchanged.
---
 diff_diff/staggered.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index db6d8af..14a987f 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1105,6 +1105,11 @@ class CallawaySantAnna(
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
+        # bootstrap_weight_type is the deprecated alias of bootstrap_weights
+        if "bootstrap_weights" in params:
+            self.bootstrap_weight_type = self.bootstrap_weights
+        elif "bootstrap_weight_type" in params:
+            self.bootstrap_weights = self.bootstrap_weight_type
         return self
 
     def summary(self) -> str:
-- 
2.43.0


From adda533fd6a8e0818a0bff90fbbce89aac94f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 12/80] fix: SunAbraham bootstrap resamples the drawn units
 whatever the row index

Row labels were used as positions, so data with a non-default index gave rows
of other units (or an IndexError).
---
 diff_diff/sun_abraham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 4e40086..3401d4c 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1011,7 +1011,7 @@ class SunAbraham:
             # Create bootstrap sample efficiently
             # Build index array for all selected units
             boot_indices = np.concatenate([
-                df.index[df[unit] == u].values for u in boot_units
+                np.flatnonzero(df[unit] == u) for u in boot_units
             ])
             df_b = df.iloc[boot_indices].copy()
 
-- 
2.43.0


From eabb131decede25c91b962afa993da04e6684970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 13/80] fix: SunAbraham reports undefined inference as NaN

An unidentified effect (NaN SE) was reported with t=0 and p=1 (or the smallest
bootstrap p-value), and designs without post-treatment periods as ATT=0.
---
 diff_diff/sun_abraham.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 3401d4c..9b2cc65 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -603,7 +603,7 @@ class SunAbraham:
             coef_index_map,
         )
 
-        overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+        overall_t = overall_att / overall_se if overall_se > 0 else np.nan
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
 
@@ -626,7 +626,7 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = overall_att / overall_se if overall_se > 0 else np.nan
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -643,7 +643,7 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val if se_val > 0 else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -881,7 +881,7 @@ class SunAbraham:
             agg_var = float(weight_vec @ vcov_subset @ weight_vec)
             agg_se = np.sqrt(max(agg_var, 0))
 
-            t_stat = agg_effect / agg_se if agg_se > 0 else 0.0
+            t_stat = agg_effect / agg_se if agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
             ci = compute_confidence_interval(agg_effect, agg_se, self.alpha)
 
@@ -918,7 +918,7 @@ class SunAbraham:
         ]
 
         if not post_effects:
-            return 0.0, 0.0
+            return np.nan, np.nan
 
         # Weight by number of treated observations at each relative time
         post_weights = []
@@ -1151,6 +1151,9 @@ class SunAbraham:
         boot_dist: np.ndarray,
     ) -> float:
         """Compute two-sided bootstrap p-value."""
+        if np.isnan(original_effect) or np.isnan(boot_dist).any():
+            # SE and percentiles are undefined too
+            return np.nan
         if original_effect >= 0:
             p_one_sided = float(np.mean(boot_dist <= 0))
         else:
-- 
2.43.0


From 2f2ac1f876ee1e47b184ac8e2e853d8fccc0467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 14/80] fix: SunAbraham weights are cohort shares at each event
 time

The documented weights n_{g,e}/sum_g n_{g,e} were computed from total cohort
sizes, which differ when a cohort is only partly observed at an event time.
---
 diff_diff/sun_abraham.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 9b2cc65..ef7e705 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -836,9 +836,9 @@ class SunAbraham:
         event_study_effects: Dict[int, Dict[str, Any]] = {}
         cohort_weights: Dict[int, Dict[Any, float]] = {}
 
-        # Get cohort sizes
-        unit_cohorts = df.groupby(unit)[first_treat].first()
-        cohort_sizes = unit_cohorts[unit_cohorts > 0].value_counts().to_dict()
+        # Treated observations of each cohort at each relative time
+        treated = df[df[first_treat] > 0]
+        cell_sizes = treated.groupby([first_treat, "_rel_time"]).size().to_dict()
 
         for e in rel_periods:
             # Get cohorts that have observations at this relative time
@@ -854,7 +854,7 @@ class SunAbraham:
             weights = {}
             total_size = 0
             for g in cohorts_at_e:
-                n_g = cohort_sizes.get(g, 0)
+                n_g = cell_sizes.get((g, e), 0)
                 weights[g] = n_g
                 total_size += n_g
 
-- 
2.43.0


From 3bff57971c638fcd55c273fa3a7493607b498fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 15/80] fix: regressions whose columns are all zero report NaN
 coefficients

Dropping every column produced a float index array and an IndexError, e.g. in
pairs-bootstrap resamples without treated or control variation.
---
 diff_diff/linalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index eccc2f5..869a32a 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -147,6 +147,9 @@ def _scaled_lstsq(X: np.ndarray, y: np.ndarray) -> np.ndarray:
     Scaling makes the relative singular value cutoff independent of the units
     of the columns, in line with _detect_rank_deficiency.
     """
+    if X.shape[1] == 0:
+        # Every column was dropped
+        return np.zeros(0)
     norms = np.linalg.norm(X, axis=0)
     norms[norms == 0] = 1.0
     # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
@@ -683,7 +686,7 @@ def _solve_ols_numpy(
         # else: "silent" - no warning
 
         # Extract kept columns for the reduced solve
-        kept_cols = np.array([i for i in range(k) if i not in dropped_cols])
+        kept_cols = np.array([i for i in range(k) if i not in dropped_cols], dtype=int)
         X_reduced = X[:, kept_cols]
 
         # Solve the reduced system (now full-rank)
-- 
2.43.0


From b911b3c370180a2ddf7243579039d1e830f2ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 16/80] fix: synthetic control weights solve the stated
 quadratic program

Projected gradient descent on the raw outcome levels barely moves from
uniform weights within its iteration cap when outcomes share a common level.
---
 diff_diff/utils.py | 58 +++++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 8e5dd3d..6342b67 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -9,6 +9,7 @@ from typing import Any, Dict, List, Optional, Tuple
 import numpy as np
 import pandas as pd
 from scipy import stats
+from scipy.optimize import nnls
 
 from diff_diff.linalg import compute_robust_vcov as _compute_robust_vcov_linalg
 from diff_diff.linalg import solve_ols as _solve_ols_linalg
@@ -1039,7 +1040,7 @@ def compute_synthetic_weights(
         min_ω ||Y_treated - Y_control @ ω||² + λ||ω - 1/n||²
         s.t. ω >= 0, sum(ω) = 1
 
-    Uses a simplified coordinate descent approach with projection onto simplex.
+    The NumPy backend solves it exactly as a non-negative least squares problem.
     """
     n_pre, n_control = Y_control.shape
 
@@ -1080,39 +1081,28 @@ def _compute_synthetic_weights_numpy(
     """NumPy fallback implementation of compute_synthetic_weights."""
     n_pre, n_control = Y_control.shape
 
-    # Initialize with uniform weights
-    weights = np.ones(n_control) / n_control
-
-    # Precompute matrices for optimization
-    # Objective: ||Y_treated - Y_control @ w||^2 + lambda * ||w - w_uniform||^2
-    # = w' @ (Y_control' @ Y_control + lambda * I) @ w - 2 * (Y_control' @ Y_treated + lambda * w_uniform)' @ w + const
-    YtY = Y_control.T @ Y_control
-    YtT = Y_control.T @ Y_treated
-    w_uniform = np.ones(n_control) / n_control
-
-    # Add regularization
-    H = YtY + lambda_reg * np.eye(n_control)
-    f = YtT + lambda_reg * w_uniform
-
-    # Solve with projected gradient descent
-    # Project onto probability simplex
-    step_size = 1.0 / (np.linalg.norm(H, 2) + _NUMERICAL_EPS)
-
-    for _ in range(_OPTIMIZATION_MAX_ITER):
-        weights_old = weights.copy()
-
-        # Gradient step: minimize ||Y - Y_control @ w||^2
-        grad = H @ weights - f
-        weights = weights - step_size * grad
-
-        # Project onto simplex (sum to 1, non-negative)
-        weights = _project_simplex(weights)
-
-        # Check convergence
-        if np.linalg.norm(weights - weights_old) < _OPTIMIZATION_TOL:
-            break
-
-    return weights
+    # On the simplex only the gaps to the treated path matter:
+    # Y_treated - Y_control @ w = -(Y_control - Y_treated) @ w, whatever the
+    # common level of the outcome.
+    gaps = Y_control - Y_treated[:, np.newaxis]
+    scale = np.sum((gaps - gaps.mean(axis=1, keepdims=True)) ** 2) + lambda_reg
+    if scale == 0:
+        return np.ones(n_control) / n_control
+
+    # A vanishing ridge picks, among equally good weights, those closest to
+    # uniform; it does not depend on the order of the units.
+    ridge = lambda_reg + _NUMERICAL_EPS * scale
+    centering = np.eye(n_control) - 1.0 / n_control  # maps w to w - 1/n
+
+    # min ||A w||^2 on the simplex is the non-negative least squares problem
+    # min ||A u||^2 + s^2 (sum(u) - 1)^2 followed by normalization (any s > 0).
+    s = np.linalg.norm(gaps) + np.sqrt(ridge)
+    A = np.vstack([gaps, np.sqrt(ridge) * centering, np.full((1, n_control), s)])
+    b = np.zeros(A.shape[0])
+    b[-1] = s
+    weights, _ = nnls(A, b)
+
+    return weights / np.sum(weights)
 
 
 def _project_simplex(v: np.ndarray) -> np.ndarray:
-- 
2.43.0


From a2a71b7b25133dc1cae1483ab14ea3f3110f2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 17/80] fix: SyntheticDiD bootstrap p-value tests the null

The bootstrap estimates are centered at the ATT, so the share of them larger
than the ATT is about one half whatever the evidence.
---
 diff_diff/synthetic_did.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..8025b94 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,8 +328,9 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Placebo effects are distributed under the null of no effect;
+            # bootstrap estimates are centered at the ATT and only give the SE
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
-- 
2.43.0


From b540841ba05b20ff7f19e5b139bc560c80542476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 18/80] fix: SyntheticDiD reports undefined inference as NaN

---
 diff_diff/synthetic_did.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 8025b94..e00aa66 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -336,12 +336,13 @@ class SyntheticDiD(DifferenceInDifferences):
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
             else:
                 p_value = compute_p_value(t_stat)
+            # Confidence interval
+            conf_int = compute_confidence_interval(att, se, self.alpha)
         else:
-            t_stat = 0.0
-            p_value = 1.0
-
-        # Confidence interval
-        conf_int = compute_confidence_interval(att, se, self.alpha)
+            # Without a standard error there is no inference to report
+            t_stat = np.nan
+            p_value = np.nan
+            conf_int = (np.nan, np.nan)
 
         # Create weight dictionaries
         unit_weights_dict = {
-- 
2.43.0


From c289644f93723bd085e8a77f66d9dec29625b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 19/80] fix: SyntheticDiD(n_bootstrap=0) falls back to placebo
 inference as documented

---
 diff_diff/synthetic_did.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index e00aa66..62d05fc 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -304,7 +304,8 @@ class SyntheticDiD(DifferenceInDifferences):
         pre_fit_rmse = np.sqrt(np.mean((Y_pre_treated_mean - synthetic_pre) ** 2))
 
         # Compute standard errors based on variance_method
-        if self.variance_method == "bootstrap":
+        # (n_bootstrap=0 disables the bootstrap in favor of placebo inference)
+        if self.variance_method == "bootstrap" and self.n_bootstrap > 0:
             se, bootstrap_estimates = self._bootstrap_se(
                 working_data, outcome, unit, time,
                 pre_periods, post_periods, treated_units, control_units
@@ -321,7 +322,7 @@ class SyntheticDiD(DifferenceInDifferences):
                 unit_weights,
                 time_weights,
                 n_treated=len(treated_units),
-                replications=self.n_bootstrap  # Reuse n_bootstrap for replications
+                replications=self.n_bootstrap or 200  # Reuse n_bootstrap for replications
             )
             inference_method = "placebo"
 
-- 
2.43.0


From 62c17eeeb85dbfa3696a21478554a0d7c14b5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 20/80] fix: SyntheticDiD rejects unbalanced panels instead of
 returning NaN with p=1

---
 diff_diff/synthetic_did.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 62d05fc..6bef131 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -404,6 +404,13 @@ class SyntheticDiD(DifferenceInDifferences):
         # Pivot data to wide format
         pivot = data.pivot(index=time, columns=unit, values=outcome)
 
+        missing = pivot.loc[:, control_units + treated_units].isna()
+        if missing.values.any():
+            raise ValueError(
+                "SyntheticDiD requires a balanced panel: "
+                f"{int(missing.values.sum())} unit-period outcomes are missing"
+            )
+
         # Extract submatrices
         Y_pre_control = pivot.loc[pre_periods, control_units].values
         Y_post_control = pivot.loc[post_periods, control_units].values
-- 
2.43.0


From 65615cd9f55969cabc2d2accf3ea041a2c06e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 21/80] fix: TripleDifference IPW standard error does not
 depend on the outcome level

The influence function used raw outcomes instead of deviations from the cell
means, so adding a constant to every outcome inflated the standard error.
---
 diff_diff/triple_diff.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..7e80edf 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1145,29 +1145,20 @@ class TripleDifference:
         n = len(y)
         post_mask = T == 1
 
-        # Influence function for IPW estimator (vectorized)
+        # Influence function of the signed sum of (weighted) cell means: every
+        # observation enters as its deviation from its own cell's mean
         inf_func = np.zeros(n)
-
-        n_ref = np.sum(cell_1)
-        p_ref = n_ref / n
-
-        # Sign: +1 for post, -1 for pre
-        sign = np.where(post_mask, 1.0, -1.0)
-
-        # Cell 1 (G=1, P=1): sign * (y - att) / p_ref
-        inf_func[cell_1] = sign[cell_1] * (y[cell_1] - att) / p_ref
-
-        # Cell 2 (G=1, P=0): -sign * y * (p_cell_1 / p_cell_2) / p_ref
-        w_2 = p_cell_1[cell_2] / p_cell_2[cell_2]
-        inf_func[cell_2] = -sign[cell_2] * y[cell_2] * w_2 / p_ref
-
-        # Cell 3 (G=0, P=1): -sign * y * (p_cell_1 / p_cell_3) / p_ref
-        w_3 = p_cell_1[cell_3] / p_cell_3[cell_3]
-        inf_func[cell_3] = -sign[cell_3] * y[cell_3] * w_3 / p_ref
-
-        # Cell 4 (G=0, P=0): sign * y * (p_cell_1 / p_cell_4) / p_ref
-        w_4 = p_cell_1[cell_4] / p_cell_4[cell_4]
-        inf_func[cell_4] = sign[cell_4] * y[cell_4] * w_4 / p_ref
+        for cell_sign, cell, w in [
+            (1.0, cell_1, np.ones(n)),
+            (-1.0, cell_2, p_cell_1 / p_cell_2),
+            (-1.0, cell_3, p_cell_1 / p_cell_3),
+            (1.0, cell_4, p_cell_1 / p_cell_4),
+        ]:
+            for time_sign, t_mask in [(-1.0, ~post_mask), (1.0, post_mask)]:
+                mask = cell & t_mask
+                share = w[mask] / np.sum(w[mask])
+                deviation = y[mask] - np.sum(share * y[mask])
+                inf_func[mask] = cell_sign * time_sign * n * share * deviation
 
         var_inf = np.var(inf_func, ddof=1)
         se = np.sqrt(var_inf / n)
-- 
2.43.0


From f4f95a956bacc227ab8cef12747868dd73d4cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 22/80] fix: TripleDifference(estimation_method='dr') is doubly
 robust

The outcome model was only ever evaluated in its own cell, where it cancelled
out of the estimate, and unequal cell shares before and after biased the
estimate even without covariates.
---
 diff_diff/triple_diff.py | 138 ++++++++++++---------------------------
 1 file changed, 43 insertions(+), 95 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 7e80edf..53f89ef 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -945,27 +945,24 @@ class TripleDifference:
         # Step 1: Outcome regression for each cell-time combination
         # Predict E[Y|X,T] for each cell
         if X is not None and X.shape[1] > 0:
-            # Fit outcome models for each cell
+            # Fit outcome models for each cell and period; each is predicted
+            # for every observation, the effectively treated cell included
             mu_fitted = np.zeros(n)
+            mu = {}
+            X1 = np.column_stack([np.ones(n), X])
 
-            for cell_mask, cell_name in [
-                (cell_1, "cell_1"), (cell_2, "cell_2"),
-                (cell_3, "cell_3"), (cell_4, "cell_4")
-            ]:
+            for k, cell_mask in enumerate([cell_1, cell_2, cell_3, cell_4], start=1):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 1:
-                        X_cell = np.column_stack([X[mask], T[mask]])
-                        try:
-                            _, fitted, _ = _linear_regression(
-                                X_cell, y[mask],
-                                rank_deficient_action=self.rank_deficient_action,
-                            )
-                            mu_fitted[mask] = fitted
-                        except Exception:
-                            mu_fitted[mask] = np.mean(y[mask])
-                    elif np.sum(mask) == 1:
-                        mu_fitted[mask] = y[mask]
+                    if np.sum(mask) >= X1.shape[1]:
+                        beta, _, _ = _linear_regression(
+                            X[mask], y[mask],
+                            rank_deficient_action=self.rank_deficient_action,
+                        )
+                        mu[k, t_val] = X1 @ np.nan_to_num(beta)
+                    else:
+                        mu[k, t_val] = np.full(n, np.mean(y[mask]))
+                    mu_fitted[mask] = mu[k, t_val][mask]
 
             # Propensity scores
             try:
@@ -995,11 +992,12 @@ class TripleDifference:
         else:
             # No covariates: use cell means as predictions
             mu_fitted = np.zeros(n)
-            for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
+            mu = {}
+            for k, cell_mask in enumerate([cell_1, cell_2, cell_3, cell_4], start=1):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 0:
-                        mu_fitted[mask] = np.mean(y[mask])
+                    mu[k, t_val] = np.full(n, np.mean(y[mask]))
+                    mu_fitted[mask] = mu[k, t_val][mask]
 
             # Unconditional probabilities
             p_cell_1 = np.full(n, np.mean(cell_1))
@@ -1015,84 +1013,34 @@ class TripleDifference:
         p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
 
         # Step 2: Doubly robust estimator
-        # For each cell, compute the augmented IPW term:
-        # (Y - mu(X)) * weight + mu(X)
-
-        pre_mask = T == 0
-        post_mask = T == 1
-
-        # Influence function components for each observation
-        n_1 = np.sum(cell_1)
-        p_ref = n_1 / n
-
-        # Cell 1 (G=1, P=1) - effectively treated
-        inf_11 = np.zeros(n)
-        inf_11[cell_1] = (y[cell_1] - mu_fitted[cell_1]) / p_ref
-        # Add outcome model contribution
-        inf_11 += mu_fitted * cell_1.astype(float) / p_ref
-
-        # Cell 2 (G=1, P=0)
-        w_10 = cell_2.astype(float) * (p_cell_1 / p_cell_2)
-        inf_10 = w_10 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 2 (vectorized)
-        inf_10[cell_2] += mu_fitted[cell_2] * (p_cell_1[cell_2] / p_cell_2[cell_2]) / p_ref
-
-        # Cell 3 (G=0, P=1)
-        w_01 = cell_3.astype(float) * (p_cell_1 / p_cell_3)
-        inf_01 = w_01 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 3 (vectorized)
-        inf_01[cell_3] += mu_fitted[cell_3] * (p_cell_1[cell_3] / p_cell_3[cell_3]) / p_ref
-
-        # Cell 4 (G=0, P=0)
-        w_00 = cell_4.astype(float) * (p_cell_1 / p_cell_4)
-        inf_00 = w_00 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 4 (vectorized)
-        inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
-
-        # Compute cell-time means using DR formula
-        def dr_mean(inf_vals, t_mask):
-            return np.mean(inf_vals[t_mask])
-
-        y_11_pre = dr_mean(inf_11, pre_mask)
-        y_11_post = dr_mean(inf_11, post_mask)
-        y_10_pre = dr_mean(inf_10, pre_mask)
-        y_10_post = dr_mean(inf_10, post_mask)
-        y_01_pre = dr_mean(inf_01, pre_mask)
-        y_01_post = dr_mean(inf_01, post_mask)
-        y_00_pre = dr_mean(inf_00, pre_mask)
-        y_00_post = dr_mean(inf_00, post_mask)
+        # Effectively treated cell: outcomes minus the comparison cells'
+        # predictions at the same covariates. Comparison cells: residuals,
+        # reweighted to the covariate distribution of the treated cell (zero on
+        # average if the outcome models are right, and a correction if not).
+        adjusted = y - mu_fitted
+        for t_val in [0, 1]:
+            mask = cell_1 & (T == t_val)
+            counterfactual = mu[2, t_val] + mu[3, t_val] - mu[4, t_val]
+            adjusted[mask] = y[mask] - counterfactual[mask]
+
+        # DDD estimate: signed sum of the (weighted) means of the eight cells
+        att = 0.0
+        for cell_sign, cell, w in [
+            (1.0, cell_1, np.ones(n)),
+            (-1.0, cell_2, p_cell_1 / p_cell_2),
+            (-1.0, cell_3, p_cell_1 / p_cell_3),
+            (1.0, cell_4, p_cell_1 / p_cell_4),
+        ]:
+            for time_sign, t_mask in [(-1.0, T == 0), (1.0, T == 1)]:
+                mask = cell & t_mask
+                att += cell_sign * time_sign * np.average(adjusted[mask], weights=w[mask])
 
-        # DDD estimate
-        att = (
-            (y_11_post - y_11_pre)
-            - (y_10_post - y_10_pre)
-            - (y_01_post - y_01_pre)
-            + (y_00_post - y_00_pre)
+        # Standard error from the influence function of those means
+        se = self._compute_ipw_se(
+            adjusted, G, P, T, cell_1, cell_2, cell_3, cell_4,
+            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att
         )
 
-        # Standard error computation
-        # Use the simpler variance formula for the DDD estimator
-        # Var(DDD) ≈ sum of variances of cell means / cell_sizes
-
-        # Compute variances within each cell-time combination
-        def cell_var(cell_mask, t_mask, y_vals):
-            mask = cell_mask & t_mask
-            if np.sum(mask) > 1:
-                return np.var(y_vals[mask], ddof=1), np.sum(mask)
-            return 0.0, max(1, np.sum(mask))
-
-        # Variance components for each of the 8 cells
-        var_components = []
-        for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-            for t_mask in [pre_mask, post_mask]:
-                v, n_cell = cell_var(cell_mask, t_mask, y)
-                if n_cell > 0:
-                    var_components.append(v / n_cell)
-
-        # Total variance is sum of components (assuming independence)
-        total_var = sum(var_components)
-        se = np.sqrt(total_var)
-
         # R-squared from outcome regression
         if X is not None:
             ss_res = np.sum((y - mu_fitted) ** 2)
-- 
2.43.0


From ab2301af50865d1690c554071dd811c950108a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 23/80] fix: TripleDifference(cluster=...) computes
 cluster-robust standard errors

---
 diff_diff/triple_diff.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 53f89ef..775c149 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -583,18 +583,25 @@ class TripleDifference:
         # Compute cell means for diagnostics
         group_means = self._compute_cell_means(y, G, P, T)
 
+        # Clusters for the standard errors
+        cluster_ids = None
+        if self.cluster is not None:
+            if self.cluster not in data.columns:
+                raise ValueError(f"Cluster column '{self.cluster}' not found in data")
+            cluster_ids = data[self.cluster].values
+
         # Estimate ATT based on method
         if self.estimation_method == "reg":
             att, se, r_squared, pscore_stats = self._regression_adjustment(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         elif self.estimation_method == "ipw":
             att, se, r_squared, pscore_stats = self._ipw_estimation(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         else:  # doubly robust
             att, se, r_squared, pscore_stats = self._doubly_robust(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
 
         # Compute inference
@@ -723,6 +730,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using regression adjustment.
@@ -762,6 +770,7 @@ class TripleDifference:
         reg = LinearRegression(
             include_intercept=False,  # Intercept already in design_matrix
             robust=self.robust,
+            cluster_ids=cluster_ids,
             alpha=self.alpha,
             rank_deficient_action=self.rank_deficient_action,
         ).fit(design_matrix, y)
@@ -781,6 +790,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using inverse probability weighting.
@@ -914,7 +924,7 @@ class TripleDifference:
         # For simplicity, use influence function approach
         se = self._compute_ipw_se(
             y, G, P, T, cell_1, cell_2, cell_3, cell_4,
-            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att
+            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att, cluster_ids
         )
 
         return att, se, None, pscore_stats
@@ -926,6 +936,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using doubly robust estimation.
@@ -1038,7 +1049,7 @@ class TripleDifference:
         # Standard error from the influence function of those means
         se = self._compute_ipw_se(
             adjusted, G, P, T, cell_1, cell_2, cell_3, cell_4,
-            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att
+            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att, cluster_ids
         )
 
         # R-squared from outcome regression
@@ -1088,6 +1099,7 @@ class TripleDifference:
         p_cell_3: np.ndarray,
         p_cell_4: np.ndarray,
         att: float,
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> float:
         """Compute standard error for IPW estimator using influence function."""
         n = len(y)
@@ -1108,6 +1120,15 @@ class TripleDifference:
                 deviation = y[mask] - np.sum(share * y[mask])
                 inf_func[mask] = cell_sign * time_sign * n * share * deviation
 
+        if cluster_ids is not None:
+            # Sum the influence function within clusters
+            codes, labels = pd.factorize(cluster_ids)
+            n_clusters = len(labels)
+            if n_clusters < 2:
+                raise ValueError("Need at least 2 clusters for cluster-robust SEs")
+            sums = np.bincount(codes, weights=inf_func, minlength=n_clusters)
+            return np.sqrt(n_clusters / (n_clusters - 1) * np.sum(sums**2)) / n
+
         var_inf = np.var(inf_func, ddof=1)
         se = np.sqrt(var_inf / n)
 
-- 
2.43.0


From e08a0dfc93dfb1bde1c3f23515565142871fb0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 24/80] fix: TripleDifference reports undefined inference as
 NaN

---
 diff_diff/triple_diff.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 775c149..ef38ff7 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -605,14 +605,19 @@ class TripleDifference:
             )
 
         # Compute inference
-        t_stat = att / se if se > 0 else 0.0
+        t_stat = att / se if se > 0 else np.nan
         df = n_obs - 8  # Approximate df (8 cell means)
         if covariates:
             df -= len(covariates)
         df = max(df, 1)
 
-        p_value = compute_p_value(t_stat, df=df)
-        conf_int = compute_confidence_interval(att, se, self.alpha, df=df)
+        if se > 0:
+            p_value = compute_p_value(t_stat, df=df)
+            conf_int = compute_confidence_interval(att, se, self.alpha, df=df)
+        else:
+            # Without a standard error there is no inference to report
+            p_value = np.nan
+            conf_int = (np.nan, np.nan)
 
         # Get number of clusters if clustering
         n_clusters = None
-- 
2.43.0


From e8abafbc64a2521e0065eea0f3987ab332dd6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 25/80] fix: TROP bootstrap and jackknife weight the resampled
 panel, not the original one

---
 diff_diff/trop.py | 41 ++---------------------------------------
 1 file changed, 2 insertions(+), 39 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..a232660 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2258,7 +2258,8 @@ class TROP:
         weights for ALL units where D[t, j] = 0 at the target period, not just
         never-treated units.
 
-        Uses pre-computed structures when available for efficiency.
+        Weights are computed from the matrices passed in, so that bootstrap and
+        jackknife resamples get the weights of the resampled panel.
 
         Parameters
         ----------
@@ -2287,44 +2288,6 @@ class TROP:
         np.ndarray
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
-        # Use pre-computed structures when available
-        if self._precomputed is not None:
-            # Time weights from pre-computed time distance matrix
-            # time_dist_matrix[t, s] = |t - s|
-            time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-
-            # Unit weights - computed for ALL units where D[t, j] = 0
-            # (Issue A fix: includes pre-treatment obs of eventually-treated units)
-            unit_weights = np.zeros(n_units)
-            D_stored = self._precomputed["D"]
-            Y_stored = self._precomputed["Y"]
-
-            # Valid control units at time t: D[t, j] == 0
-            valid_control_at_t = D_stored[t, :] == 0
-
-            if lambda_unit == 0:
-                # Uniform weights when lambda_unit = 0
-                # All units not treated at time t get weight 1
-                unit_weights[valid_control_at_t] = 1.0
-            else:
-                # Use observation-specific distances with target period excluded
-                # (Issue B fix: compute exact per-observation distance)
-                for j in range(n_units):
-                    if valid_control_at_t[j] and j != i:
-                        # Compute distance excluding target period t
-                        dist = self._compute_unit_distance_for_obs(Y_stored, D_stored, j, i, t)
-                        if np.isinf(dist):
-                            unit_weights[j] = 0.0
-                        else:
-                            unit_weights[j] = np.exp(-lambda_unit * dist)
-
-            # Treated unit i gets weight 1
-            unit_weights[i] = 1.0
-
-            # Weight matrix: outer product (n_periods x n_units)
-            return np.outer(time_weights, unit_weights)
-
-        # Fallback: compute from scratch (used in bootstrap/jackknife)
         # Time distance: |t - s| following paper's Equation 3 (page 7)
         dist_time = np.abs(np.arange(n_periods) - t)
         time_weights = np.exp(-lambda_time * dist_time)
-- 
2.43.0


From dcca62b43fdbcfd2c8c249aa71587babdf0275e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 26/80] fix: TROP low-rank step solves the documented
 nuclear-norm problem

---
 diff_diff/trop.py | 11 ++++++-----
 rust/src/trop.rs  |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a232660..c412297 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1204,8 +1204,8 @@ class TROP:
             gradient_step = L + delta_norm * (R - L)
 
             # Soft-threshold singular values
-            # Use eta * lambda_nn for proper proximal step size (matches Rust)
-            eta = 1.0 / delta_max if delta_max > 0 else 1.0
+            # Step size 1/(2·delta_max) for the squared loss (matches Rust)
+            eta = 1.0 / (2.0 * delta_max) if delta_max > 0 else 1.0
             L = self._soft_threshold_svd(gradient_step, eta * lambda_nn)
 
             # Check convergence
@@ -2459,8 +2459,9 @@ class TROP:
 
         # Proximal gradient iteration with weighted soft-impute
         # This solves: min_L ||W^{1/2} ⊙ (R - L)||_F^2 + λ||L||_*
-        # Using: L_{k+1} = prox_{λ/η}(L_k + W ⊙ (R - L_k))
-        # where η is the step size (we use η = 1 with normalized weights)
+        # Gradient step size 1/(2·W_max) gives
+        # L_{k+1} = prox_{λ/(2·W_max)}(L_k + W_norm ⊙ (R - L_k))
+        threshold = lambda_nn / (2.0 * W_max) if W_max > 0 else lambda_nn
         for _ in range(max_inner_iter):
             L_old = L.copy()
 
@@ -2469,7 +2470,7 @@ class TROP:
             gradient_step = L + W_norm * (R_masked - L)
 
             # Proximal step: soft-threshold singular values
-            L = self._soft_threshold_svd(gradient_step, lambda_nn)
+            L = self._soft_threshold_svd(gradient_step, threshold)
 
             # Check convergence
             if np.max(np.abs(L - L_old)) < self.tol:
diff --git a/rust/src/trop.rs b/rust/src/trop.rs
index 9465de7..8f7df23 100644
--- a/rust/src/trop.rs
+++ b/rust/src/trop.rs
@@ -752,7 +752,7 @@ fn estimate_model(
         }
 
         // Proximal step: soft-threshold singular values with scaled lambda
-        l = soft_threshold_svd(&gradient_step, eta * lambda_nn)?;
+        l = soft_threshold_svd(&gradient_step, 0.5 * eta * lambda_nn)?;
 
         // Check convergence
         let alpha_diff = max_abs_diff(&alpha, &alpha_old);
@@ -1356,7 +1356,7 @@ fn solve_joint_with_lowrank(
         }
 
         // Soft-threshold singular values
-        l = soft_threshold_svd(&gradient_step, eta * lambda_nn)?;
+        l = soft_threshold_svd(&gradient_step, 0.5 * eta * lambda_nn)?;
 
         // Check convergence
         let l_diff = max_abs_diff_2d(&l, &l_old);
-- 
2.43.0


From 170633b322b35ddc499daaa9563bfe5ec8dda95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 27/80] fix: TROP reports the cross-validation score of the
 selected parameters when one is infinite

---
 diff_diff/trop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index c412297..13d5c79 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2075,9 +2075,12 @@ class TROP:
 
             # Compute final score for the optimized parameters
             try:
+                # (λ=∞ means "disabled", as in the searches above)
                 best_score = self._loocv_score_obs_specific(
                     Y, D, control_mask, control_unit_idx,
-                    lambda_time, lambda_unit, lambda_nn,
+                    0.0 if np.isinf(lambda_time) else lambda_time,
+                    0.0 if np.isinf(lambda_unit) else lambda_unit,
+                    1e10 if np.isinf(lambda_nn) else lambda_nn,
                     n_units, n_periods
                 )
                 # Only accept finite scores - infinite means all fits failed
-- 
2.43.0


From 5d3d3ace301889255c97e89316d3f8586b4e082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 28/80] fix: TROP confidence interval uses the same t
 distribution as its p-value

---
 diff_diff/trop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 13d5c79..783a4d0 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1512,7 +1512,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             t_stat = np.nan
             p_value = np.nan
@@ -2192,7 +2194,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             # When SE is undefined/zero, ALL inference fields should be NaN
             t_stat = np.nan
-- 
2.43.0


From 8df835ee0a40a2320f7cf0ef4f8311d4b35d745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 29/80] fix: exact Goodman-Bacon weights reproduce the TWFE
 estimate on balanced panels

---
 diff_diff/bacon.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..2270b39 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -610,7 +610,6 @@ class BaconDecomposition:
         from Goodman-Bacon (2021) which accounts for within-group variance
         of the treatment indicator in each 2x2 comparison window.
         """
-        n_total_obs = len(df)
         n_total_units = df[unit].nunique()
 
         for comp in comparisons:
@@ -663,12 +662,6 @@ class BaconDecomposition:
                 comp.weight = 0.0
                 continue
 
-            # Number of observations in this 2x2 sample
-            n_22 = len(df_22)
-
-            # Sample share of this comparison
-            sample_share = n_22 / n_total_obs
-
             # Group shares within the 2x2
             n_k_share = n_k / (n_k + n_l)
 
@@ -682,14 +675,14 @@ class BaconDecomposition:
             # D = 0 for all periods for control units in this window
             D_k = T_post / T_window  # proportion treated for treated group
 
-            # Within-comparison variance of treatment
-            # Var(D) = n_k/(n_k+n_l) * D_k * (1-D_k) for the 2x2
-            var_D_22 = n_k_share * D_k * (1 - D_k)
+            # Variance of the two-way demeaned treatment within the 2x2
+            var_D_22 = n_k_share * (1 - n_k_share) * D_k * (1 - D_k)
 
-            # Exact weight: proportional to sample share * variance
-            # Scale by (n_k + n_l) / n_total_units to account for subsample
+            # Exact weight (Theorem 1): squared share of the sample (units x
+            # periods) used by this comparison times its treatment variance
             unit_share = (n_k + n_l) / n_total_units
-            comp.weight = sample_share * var_D_22 * unit_share
+            time_share = T_window / len(time_periods)
+            comp.weight = (unit_share * time_share) ** 2 * var_D_22
 
     def _compute_treated_vs_never(
         self,
-- 
2.43.0


From d1665f5c2c2fc08f8db2c2e8954e0b71ba0a7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 30/80] fix: HonestDiD uses the covariance of the post-period
 effects

---
 diff_diff/honest_did.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..8aaf0b8 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -562,8 +562,17 @@ def _extract_event_study_params(
         num_post_periods = len(post_periods)
         num_pre_periods = len(pre_periods) if pre_periods else 0
 
-        # Get vcov if available
-        if results.vcov is not None:
+        # Get vcov if available: the post-period block of the regression's
+        # covariance matrix (rows follow the order of results.coefficients)
+        names = list(results.coefficients) if results.coefficients else []
+        idx = [
+            k for period in post_periods for k, name in enumerate(names)
+            if name.endswith(f":period_{period}")
+        ]
+        if results.vcov is not None and len(names) == results.vcov.shape[0] \
+                and len(idx) == num_post_periods:
+            sigma = results.vcov[np.ix_(idx, idx)]
+        elif results.vcov is not None:
             sigma = results.vcov
         else:
             # Construct diagonal vcov from SEs
-- 
2.43.0


From 2b55a584d254924211826da1073eadb39cf58cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 31/80] fix: HonestDiD.breakdown_value finds breakdown values
 above 10

---
 diff_diff/honest_did.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 8aaf0b8..7f6dc1c 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1415,16 +1415,21 @@ class HonestDiD:
         if result_0.ci_lb <= 0 <= result_0.ci_ub:
             return 0.0
 
-        # Check if significant even for large M
-        result_large = self.fit(results, M=10)
-        if not (result_large.ci_lb <= 0 <= result_large.ci_ub):
-            return None  # Always significant
+        # Find a value of M large enough for the CI to include zero
+        lo, hi = 0.0, 10.0
+        result_large = self.fit(results, M=hi)
+        while not (result_large.ci_lb <= 0 <= result_large.ci_ub):
+            if hi > 1e9:
+                return None  # Always significant
+            lo, hi = hi, 2 * hi
+            result_large = self.fit(results, M=hi)
 
         # Binary search
-        lo, hi = 0.0, 10.0
 
         while hi - lo > tol:
             mid = (lo + hi) / 2
+            if not lo < mid < hi:
+                break  # floating-point resolution reached
             result = self.fit(results, M=mid)
             if result.ci_lb <= 0 <= result.ci_ub:
                 hi = mid
-- 
2.43.0


From b699f7be255f661775e8a94ec8d97f853c1b5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 32/80] fix: sensitivity_analysis breakdown does not depend on
 the grid starting at zero or being sorted

---
 diff_diff/honest_did.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 7f6dc1c..d0d3738 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1355,25 +1355,26 @@ class HonestDiD:
 
         Uses binary search for precision.
         """
-        # Check if any CI includes zero
+        # Check if any CI includes zero, in increasing order of M
+        order = np.argsort(M_values, kind="stable")
+        M_values = np.asarray(M_values)[order]
+        ci_list = [ci_list[i] for i in order]
         includes_zero = [ci_lb <= 0 <= ci_ub for ci_lb, ci_ub in ci_list]
 
         if not any(includes_zero):
             # Always significant - no breakdown
             return None
 
-        if all(includes_zero):
+        result_0 = self.fit(results, M=0)
+        if result_0.ci_lb <= 0 <= result_0.ci_ub:
             # Never significant - breakdown at 0
             return 0.0
 
         # Find first transition point
         for i, (inc, M) in enumerate(zip(includes_zero, M_values)):
             if inc and (i == 0 or not includes_zero[i - 1]):
-                # Binary search between M_values[i-1] and M_values[i]
-                if i == 0:
-                    return 0.0
-
-                lo, hi = M_values[i - 1], M_values[i]
+                # Binary search between M_values[i-1] (or 0) and M_values[i]
+                lo, hi = (M_values[i - 1] if i > 0 else 0.0), M_values[i]
 
                 for _ in range(20):  # 20 iterations for precision
                     mid = (lo + hi) / 2
-- 
2.43.0


From c2e4b51e6907a3ef314696cd93ba423288f2fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 33/80] fix: pre-trends power works whatever the treatment
 column is called

---
 diff_diff/pretrends.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..990f4fb 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -569,10 +569,15 @@ class PreTrendsPower:
             # Only include periods with actual estimated coefficients
             # (excludes the reference period which is omitted from estimation)
             if hasattr(results, 'coefficients') and results.coefficients:
-                # Find which pre-periods have estimated coefficients
+                # Find which pre-periods have estimated coefficients. Interaction
+                # terms are named "<treatment column>:period_<label>".
+                interaction_keys = {
+                    key.rsplit(":period_", 1)[1]: key
+                    for key in results.coefficients
+                    if ":period_" in key
+                }
                 estimated_pre_periods = [
-                    p for p in all_pre_periods
-                    if f"treated:period_{p}" in results.coefficients
+                    p for p in all_pre_periods if str(p) in interaction_keys
                 ]
 
                 if len(estimated_pre_periods) == 0:
@@ -586,7 +591,7 @@ class PreTrendsPower:
 
                 # Extract effects for estimated periods only
                 effects = np.array([
-                    results.coefficients[f"treated:period_{p}"]
+                    results.coefficients[interaction_keys[str(p)]]
                     for p in estimated_pre_periods
                 ])
 
@@ -605,9 +610,8 @@ class PreTrendsPower:
                     # Get ordered list of all coefficient keys
                     coef_keys = list(results.coefficients.keys())
                     pre_indices = [
-                        coef_keys.index(f"treated:period_{p}")
+                        coef_keys.index(interaction_keys[str(p)])
                         for p in estimated_pre_periods
-                        if f"treated:period_{p}" in coef_keys
                     ]
                     if len(pre_indices) == n_pre and results.vcov.shape[0] > max(pre_indices):
                         vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
-- 
2.43.0


From 3b23cef1a66904fb7100c075faa5dfb5e2367b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 34/80] fix: PreTrendsPowerResults.power_at uses the custom
 violation weights

---
 diff_diff/pretrends.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 990f4fb..ea7852d 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -73,6 +73,8 @@ class PreTrendsPowerResults:
         Standard errors of pre-period effects.
     vcov : np.ndarray
         Variance-covariance matrix of pre-period effects.
+    violation_weights : np.ndarray, optional
+        Violation pattern used (unit L2 norm).
     """
 
     power: float
@@ -89,6 +91,7 @@ class PreTrendsPowerResults:
     pre_period_ses: np.ndarray = field(repr=False)
     vcov: np.ndarray = field(repr=False)
     original_results: Optional[Any] = field(default=None, repr=False)
+    violation_weights: Optional[np.ndarray] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         return (
@@ -225,7 +228,9 @@ class PreTrendsPowerResults:
 
         # Reconstruct violation weights based on violation type
         # Must match PreTrendsPower._get_violation_weights() exactly
-        if self.violation_type == "linear":
+        if self.violation_weights is not None:
+            weights = np.asarray(self.violation_weights, dtype=float)
+        elif self.violation_type == "linear":
             # Linear trend: weights decrease toward treatment
             # [n-1, n-2, ..., 1, 0] for n pre-periods
             weights = np.arange(-n_pre + 1, 1, dtype=float)
@@ -236,7 +241,7 @@ class PreTrendsPowerResults:
             weights = np.zeros(n_pre)
             weights[-1] = 1.0
         else:
-            # For custom, we can't reconstruct - use equal weights as fallback
+            # Custom pattern not stored - use equal weights as fallback
             weights = np.ones(n_pre)
 
         # Normalize weights to unit L2 norm
@@ -911,6 +916,7 @@ class PreTrendsPower:
             pre_period_ses=ses,
             vcov=vcov,
             original_results=results,
+            violation_weights=weights,
         )
 
     def power_at(
-- 
2.43.0


From b8b832841778a5be33935c1b0b1d762eb132de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 35/80] fix: MDV is 0 when the target power does not exceed
 alpha

---
 diff_diff/pretrends.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index ea7852d..bf5afa0 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -817,6 +817,11 @@ class PreTrendsPower:
                 return self.alpha - self.target_power
             return stats.ncx2.sf(critical_value, df=n_pre, nc=nc) - self.target_power
 
+        # The test rejects with probability alpha without any violation, so a
+        # target at or below alpha is already met at M = 0
+        if power_minus_target(0) >= 0:
+            return 0.0
+
         # Binary search for non-centrality parameter
         # Start with bounds
         nc_low, nc_high = 0, 1
-- 
2.43.0


From 437c028242b9e5cc264dbde1581c83a79b120ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 36/80] fix: automatic pre-trends power grid always reaches 2.5
 times the MDV

---
 diff_diff/pretrends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index bf5afa0..96c378b 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -986,7 +986,7 @@ class PreTrendsPower:
 
         # Create M grid if not provided
         if M_grid is None:
-            max_M = min(2.5 * mdv if np.isfinite(mdv) else 10 * np.max(ses), 100)
+            max_M = 2.5 * mdv if np.isfinite(mdv) else 10 * np.max(ses)
             M_grid = np.linspace(0, max_M, n_points)
         else:
             M_grid = np.asarray(M_grid)
-- 
2.43.0


From 13f1ac87f400c5d7f0a19d4c91a44f2e38b8e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 37/80] fix: panel sample size is not twice what the panel
 variance requires

---
 diff_diff/power.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..81df028 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -681,10 +681,10 @@ class PowerAnalysis:
             design_effect = 1 + (T - 1) * rho
 
             # Var = sigma^2 * (1/n_t + 1/n_c) * design_effect / T
-            # For balanced: Var = 2 * sigma^2 / N * design_effect / T
+            #     = sigma^2 / N * (1/(p*(1-p))) * design_effect / T
 
             n_total = (
-                2 * sigma**2 * (z_alpha + z_beta)**2 * design_effect
+                sigma**2 * (z_alpha + z_beta)**2 * design_effect
                 / (effect_size**2 * treat_frac * (1 - treat_frac) * T)
             )
 
-- 
2.43.0


From a698e0748a88d4f0fa2e27ff8e582b11c8aa46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 38/80] fix: simulate_power fits TwoWayFixedEffects with the
 post indicator as time

---
 diff_diff/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 81df028..f2a91a5 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1086,7 +1086,7 @@ def simulate_power(
                         data,
                         outcome="outcome",
                         treatment="treated",
-                        time="period",
+                        time="post",
                         unit="unit",
                         **est_kwargs
                     )
-- 
2.43.0


From f571555f7f20da3c1d32128a5c8995cf22afb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 39/80] fix: simulate_power works with CallawaySantAnna and
 keeps the generator's own treatment timing

---
 diff_diff/power.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index f2a91a5..b293c77 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1101,12 +1101,13 @@ def simulate_power(
                         **est_kwargs
                     )
                 elif estimator_name == "CallawaySantAnna":
-                    # Need to create first_treat column for staggered
                     # For standard generate_did_data, convert to first_treat format
-                    data = data.copy()
-                    data["first_treat"] = np.where(
-                        data["treated"] == 1, treatment_period, 0
-                    )
+                    # (a custom staggered generator provides its own timing)
+                    if "first_treat" not in data.columns:
+                        data = data.copy()
+                        data["first_treat"] = np.where(
+                            data["treated"] == 1, treatment_period, 0
+                        )
                     result = estimator.fit(
                         data,
                         outcome="outcome",
@@ -1125,11 +1126,14 @@ def simulate_power(
                         **est_kwargs
                     )
 
-                # Extract results
-                att = result.att if hasattr(result, 'att') else result.avg_att
-                se = result.se if hasattr(result, 'se') else result.avg_se
-                p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
-                ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
+                # Extract results (attribute names depend on the results class)
+                prefix = next(
+                    pre for pre in ("", "avg_", "overall_") if hasattr(result, pre + "att")
+                )
+                att = getattr(result, prefix + "att")
+                se = getattr(result, prefix + "se")
+                p_val = getattr(result, prefix + "p_value")
+                ci = getattr(result, prefix + "conf_int")
 
                 estimates.append(att)
                 ses.append(se)
-- 
2.43.0


From e4b74f06cf23b0011f65903279310630369e9602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 40/80] fix: parallel-trends check reports an undefined
 standard error with two observations

---
 diff_diff/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 6342b67..3bad178 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -593,7 +593,10 @@ def check_parallel_trends(
 
         slope = np.sum((time_norm - mean_t) * (outcome_values - mean_y)) / time_var
 
-        # Compute standard error of slope
+        # Compute standard error of slope (no residual degrees of freedom with
+        # two observations)
+        if n < 3:
+            return slope, np.nan
         y_hat = mean_y + slope * (time_norm - mean_t)
         residuals = outcome_values - y_hat
         mse = np.sum(residuals ** 2) / (n - 2)
-- 
2.43.0


From 90b172effa07efdfff5ce16a471a522f94762819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 41/80] fix: the fake-group placebo test leaves truly treated
 units out of the comparison group

---
 diff_diff/diagnostics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..332fe19 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -309,8 +309,11 @@ def run_placebo_test(
             raise ValueError("unit is required for fake_group test")
         if fake_treatment_group is None or len(fake_treatment_group) == 0:
             raise ValueError("fake_treatment_group is required for fake_group test")
+        # Only never-treated units take part: truly treated units would
+        # otherwise serve as controls
+        treated_units = data.loc[data[treatment] == 1, unit].unique()
         return placebo_group_test(
-            data=data,
+            data=data[~data[unit].isin(treated_units)],
             outcome=outcome,
             time=time,
             unit=unit,
-- 
2.43.0


From 741ea1bd45e0c340ef0ec210d15d85a8d0ad1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 42/80] fix: placebo tests report intervals at the requested
 alpha

---
 diff_diff/diagnostics.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 332fe19..e9d57b3 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -419,7 +419,7 @@ def placebo_timing_test(
     pre_data["_fake_post"] = (pre_data[time] >= fake_treatment_period).astype(int)
 
     # Fit DiD on pre-treatment data with fake post
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         pre_data,
         outcome=outcome,
@@ -430,7 +430,7 @@ def placebo_timing_test(
     # Also fit on full data for comparison
     data_with_post = data.copy()
     data_with_post["_post"] = data_with_post[time].isin(post_periods).astype(int)
-    did_full = DifferenceInDifferences(**estimator_kwargs)
+    did_full = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results_full = did_full.fit(
         data_with_post,
         outcome=outcome,
@@ -511,7 +511,7 @@ def placebo_group_test(
     fake_data["_post"] = fake_data[time].isin(post_periods).astype(int)
 
     # Fit DiD
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         fake_data,
         outcome=outcome,
@@ -585,7 +585,7 @@ def permutation_test(
     rng = np.random.default_rng(seed)
 
     # First, fit original model
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     original_results = did.fit(
         data,
         outcome=outcome,
@@ -616,7 +616,7 @@ def permutation_test(
 
         # Fit DiD
         try:
-            perm_did = DifferenceInDifferences(**estimator_kwargs)
+            perm_did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
             perm_results = perm_did.fit(
                 perm_data,
                 outcome=outcome,
@@ -722,7 +722,7 @@ def leave_one_out_test(
         Results with leave_one_out_effects dict mapping unit -> ATT estimate.
     """
     # Fit original model
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     original_results = did.fit(
         data,
         outcome=outcome,
@@ -746,7 +746,7 @@ def leave_one_out_test(
             continue
 
         try:
-            loo_did = DifferenceInDifferences(**estimator_kwargs)
+            loo_did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
             loo_results = loo_did.fit(
                 loo_data,
                 outcome=outcome,
-- 
2.43.0


From 7320b3bef05606a5c980a1a7d6013274c1102f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 43/80] fix: placebo tests report an undefined t-statistic when
 the spread is zero

---
 diff_diff/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index e9d57b3..d9a8e54 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -665,7 +665,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -786,7 +786,7 @@ def leave_one_out_test(
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
     se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
+    t_stat = mean_effect / se if se > 0 else np.nan
 
     # Use t-distribution for p-value
     df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
-- 
2.43.0


From 0eaae86bca7969a6ac3483502dd416d644d7ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 44/80] fix: run_all_placebo_tests runs the permutation and
 leave-one-out tests on multi-period data

---
 diff_diff/diagnostics.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index d9a8e54..7b2b0b3 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -887,13 +887,17 @@ def run_all_placebo_tests(
                 "period": period
             }
 
+    # The remaining tests need a binary post indicator
+    post_data = data.copy()
+    post_data["_post"] = post_data[time].isin(post_periods).astype(int)
+
     # Permutation test
     try:
         perm_result = permutation_test(
-            data=data,
+            data=post_data,
             outcome=outcome,
             treatment=treatment,
-            time=time,
+            time="_post",
             unit=unit,
             n_permutations=n_permutations,
             alpha=alpha,
@@ -911,10 +915,10 @@ def run_all_placebo_tests(
     # Leave-one-out test
     try:
         loo_result = leave_one_out_test(
-            data=data,
+            data=post_data,
             outcome=outcome,
             treatment=treatment,
-            time=time,
+            time="_post",
             unit=unit,
             alpha=alpha,
             **estimator_kwargs
-- 
2.43.0


From 9bd5062b3465e552c7a75e9000c26af26e36be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 45/80] fix: treatment and post indicators accept arrays,
 series and ranges of values

---
 diff_diff/prep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..d2f94a0 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -100,9 +100,9 @@ def make_treatment_indicator(
 
     if treated_values is not None:
         # Convert single value to list
-        if not isinstance(treated_values, (list, tuple, set)):
+        if not pd.api.types.is_list_like(treated_values):
             treated_values = [treated_values]
-        df[new_column] = df[column].isin(treated_values).astype(int)
+        df[new_column] = df[column].isin(list(treated_values)).astype(int)
     else:
         # Use threshold
         if above_threshold:
@@ -176,9 +176,9 @@ def make_post_indicator(
 
     if post_periods is not None:
         # Convert single value to list
-        if not isinstance(post_periods, (list, tuple, set)):
+        if not pd.api.types.is_list_like(post_periods):
             post_periods = [post_periods]
-        df[new_column] = df[time_column].isin(post_periods).astype(int)
+        df[new_column] = df[time_column].isin(list(post_periods)).astype(int)
     else:
         # Use treatment_start - convert to same type as column if needed
         col_dtype = df[time_column].dtype
-- 
2.43.0


From a5718f642a72ebccbdc96cbd8dd9561c726136b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 46/80] fix: rank_control_units computes synthetic weights on
 unbalanced panels

---
 diff_diff/prep.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index d2f94a0..26fc19f 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1003,10 +1003,15 @@ def rank_control_units(
     # -------------------------------------------------------------------------
     # Compute outcome trend scores
     # -------------------------------------------------------------------------
-    # Synthetic weights (higher = better match)
-    synthetic_weights = compute_synthetic_weights(
-        Y_control, Y_treated_mean, lambda_reg=lambda_reg
-    )
+    # Synthetic weights (higher = better match), from the periods observed for
+    # every unit (no match is preferred if there is none)
+    observed = ~np.isnan(Y_control).any(axis=1) & ~np.isnan(Y_treated_mean)
+    if observed.any():
+        synthetic_weights = compute_synthetic_weights(
+            Y_control[observed], Y_treated_mean[observed], lambda_reg=lambda_reg
+        )
+    else:
+        synthetic_weights = np.ones(len(control_candidates)) / len(control_candidates)
 
     # RMSE for each control vs treated mean (use nanmean to handle missing data)
     rmse_scores = []
-- 
2.43.0


From 923d5f3b1adcc15ea7a0367353341d18f36d9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 47/80] fix: rank_control_units with covariates tolerates
 treated units without pre-period data

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 26fc19f..9fd251a 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1040,7 +1040,7 @@ def rank_control_units(
         cov_data = pre_data.groupby(unit_column)[covariates].mean()
 
         # Treated covariate profile (mean across treated units)
-        treated_cov = cov_data.loc[list(treated_set)].mean()
+        treated_cov = cov_data.loc[treated_list].mean()
 
         # Standardize covariates
         cov_mean = cov_data.mean()
-- 
2.43.0


From b8772c24c45a99160e4cb0c4abe8d24ff6866099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 48/80] fix: one control without covariate data does not
 disable covariate matching for all

---
 diff_diff/prep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 9fd251a..c0d34ce 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1056,8 +1056,9 @@ def rank_control_units(
         )
 
         # Convert distance to similarity score (min-max normalization)
-        max_dist = covariate_distances.max() if len(covariate_distances) > 0 else 1.0
-        min_dist = covariate_distances.min() if len(covariate_distances) > 0 else 0.0
+        # (controls without covariate data get no covariate score)
+        max_dist = np.nanmax(covariate_distances)
+        min_dist = np.nanmin(covariate_distances)
         dist_range = max_dist - min_dist
 
         if dist_range < 1e-10:
-- 
2.43.0


From 28902b86475b58dfcf8eeae9f6db873ed1b1d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 49/80] fix: treatment-candidate trends do not depend on the
 row order

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index c0d34ce..1b078cf 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1171,7 +1171,7 @@ def _suggest_treatment_candidates(
     candidate_info = []
 
     for unit in all_units:
-        unit_data = pre_data[pre_data[unit_column] == unit]
+        unit_data = pre_data[pre_data[unit_column] == unit].sort_values(time_column)
 
         if len(unit_data) == 0:
             continue
-- 
2.43.0


From ed398a11c026957575aa0e3e008241492d7e95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 50/80] fix: validate_did_data reports a treatment column of
 mixed types instead of raising TypeError

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 1b078cf..af1fd0e 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -467,7 +467,7 @@ def validate_did_data(
     if not set(treatment_vals).issubset({0, 1}):
         errors.append(
             f"Treatment column '{treatment}' must be binary (0 or 1). "
-            f"Found values: {sorted(treatment_vals)}"
+            f"Found values: {sorted(treatment_vals, key=str)}"
         )
 
     # Check time is binary for simple DiD
-- 
2.43.0


From 820fd940b51857c3bd046365de60a63d20608691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 51/80] fix: one control sharing no period with the treated
 units does not disable trend matching for all

---
 diff_diff/prep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index af1fd0e..35ec70a 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1021,8 +1021,10 @@ def rank_control_units(
         rmse_scores.append(rmse)
 
     # Convert RMSE to similarity score (lower RMSE = higher score)
-    max_rmse = max(rmse_scores) if rmse_scores else 1.0
-    min_rmse = min(rmse_scores) if rmse_scores else 0.0
+    # (controls sharing no period with the treated units have no RMSE)
+    comparable = [rmse for rmse in rmse_scores if not np.isnan(rmse)]
+    max_rmse = max(comparable) if comparable else 1.0
+    min_rmse = min(comparable) if comparable else 0.0
     rmse_range = max_rmse - min_rmse
 
     if rmse_range < 1e-10:
-- 
2.43.0


From 46d445e99e1eca3ed104852d8954946b328a1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 52/80] fix: default cohorts of generate_staggered_data exist
 for two-period panels

---
 diff_diff/prep_dgp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff_diff/prep_dgp.py b/diff_diff/prep_dgp.py
index d8707aa..a346716 100644
--- a/diff_diff/prep_dgp.py
+++ b/diff_diff/prep_dgp.py
@@ -206,7 +206,11 @@ def generate_staggered_data(
 
     # Default cohort periods if not specified
     if cohort_periods is None:
-        cohort_periods = [3, 5, 7] if n_periods >= 8 else [n_periods // 3, 2 * n_periods // 3]
+        if n_periods >= 8:
+            cohort_periods = [3, 5, 7]
+        else:
+            # Distinct periods, never the first one (no pre-period)
+            cohort_periods = sorted({max(1, n_periods // 3), max(1, 2 * n_periods // 3)})
 
     # Validate cohort periods
     for cp in cohort_periods:
-- 
2.43.0


From 27e998d348476bbbf4001d0cdc85f4ddfaa185f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 53/80] fix: BaconDecomposition.set_params rejects unknown
 parameters like every other estimator

---
 diff_diff/bacon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 2270b39..1ebda76 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -865,6 +865,9 @@ class BaconDecomposition:
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
+        for key in params:
+            if key != "weights":
+                raise ValueError(f"Unknown parameter: {key}")
         if "weights" in params:
             if params["weights"] not in ("approximate", "exact"):
                 raise ValueError(
-- 
2.43.0


From 83a66e801e17d8ad0d5aa755d3e8208ebd1c28d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 54/80] fix: summaries print the confidence level without
 truncating it

---
 diff_diff/diagnostics.py       | 2 +-
 diff_diff/honest_did.py        | 2 +-
 diff_diff/results.py           | 6 +++---
 diff_diff/staggered_results.py | 2 +-
 diff_diff/sun_abraham.py       | 2 +-
 diff_diff/triple_diff.py       | 2 +-
 diff_diff/trop.py              | 2 +-
 diff_diff/utils.py             | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 7b2b0b3..167d19e 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -85,7 +85,7 @@ class PlaceboTestResults:
 
     def summary(self) -> str:
         """Generate formatted summary of placebo test results."""
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 65,
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index d0d3738..d1080a7 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -240,7 +240,7 @@ class HonestDiDResults:
         str
             Formatted summary.
         """
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         method_names = {
             "smoothness": "Smoothness (Delta^SD)",
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 213d09f..75340bf 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -83,7 +83,7 @@ class DiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 70,
@@ -324,7 +324,7 @@ class MultiPeriodDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 80,
@@ -562,7 +562,7 @@ class SyntheticDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index 617a839..a629667 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -137,7 +137,7 @@ class CallawaySantAnnaResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index ef7e705..a7b2136 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -108,7 +108,7 @@ class SunAbrahamResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index ef38ff7..aff4d6a 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -136,7 +136,7 @@ class TripleDifferenceResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 783a4d0..9e3ca75 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -196,7 +196,7 @@ class TROPResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 3bad178..65aece0 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -203,7 +203,7 @@ class WildBootstrapResults:
             f"Bootstrap SE:        {self.se:.6f}",
             f"Bootstrap p-value:   {self.p_value:.4f}",
             f"Original t-stat:     {self.t_stat_original:.4f}",
-            f"CI ({int((1-self.alpha)*100)}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
+            f"CI ({(1 - self.alpha) * 100:g}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
             f"Number of clusters:  {self.n_clusters}",
             f"Bootstrap reps:      {self.n_bootstrap}",
             f"Weight type:         {self.weight_type}",
-- 
2.43.0


From 31be0a93ef18262ca8134c3ad0cf08d8ee6e0c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 55/80] fix: an undefined robust interval is not reported as a
 robust effect

---
 diff_diff/honest_did.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index d1080a7..869b5e4 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -197,7 +197,7 @@ class HonestDiDResults:
     )
 
     def __repr__(self) -> str:
-        sig = "" if self.ci_lb <= 0 <= self.ci_ub else "*"
+        sig = self.significance_stars
         return (
             f"HonestDiDResults(bounds=[{self.lb:.4f}, {self.ub:.4f}], "
             f"CI=[{self.ci_lb:.4f}, {self.ci_ub:.4f}]{sig}, "
@@ -207,7 +207,7 @@ class HonestDiDResults:
     @property
     def is_significant(self) -> bool:
         """Check if CI excludes zero (effect is robust to violations)."""
-        return not (self.ci_lb <= 0 <= self.ci_ub)
+        return bool(self.ci_lb > 0 or self.ci_ub < 0)
 
     @property
     def significance_stars(self) -> str:
@@ -443,7 +443,7 @@ class SensitivityResults:
                 "ub": ub,
                 "ci_lb": ci_lb,
                 "ci_ub": ci_ub,
-                "is_significant": not (ci_lb <= 0 <= ci_ub),
+                "is_significant": bool(ci_lb > 0 or ci_ub < 0),
             })
         return pd.DataFrame(rows)
 
@@ -1359,14 +1359,14 @@ class HonestDiD:
         order = np.argsort(M_values, kind="stable")
         M_values = np.asarray(M_values)[order]
         ci_list = [ci_list[i] for i in order]
-        includes_zero = [ci_lb <= 0 <= ci_ub for ci_lb, ci_ub in ci_list]
+        includes_zero = [not (ci_lb > 0 or ci_ub < 0) for ci_lb, ci_ub in ci_list]
 
         if not any(includes_zero):
             # Always significant - no breakdown
             return None
 
         result_0 = self.fit(results, M=0)
-        if result_0.ci_lb <= 0 <= result_0.ci_ub:
+        if not result_0.is_significant:
             # Never significant - breakdown at 0
             return 0.0
 
@@ -1379,7 +1379,7 @@ class HonestDiD:
                 for _ in range(20):  # 20 iterations for precision
                     mid = (lo + hi) / 2
                     result = self.fit(results, M=mid)
-                    if result.ci_lb <= 0 <= result.ci_ub:
+                    if not result.is_significant:
                         hi = mid
                     else:
                         lo = mid
@@ -1413,13 +1413,13 @@ class HonestDiD:
         """
         # Check at M=0
         result_0 = self.fit(results, M=0)
-        if result_0.ci_lb <= 0 <= result_0.ci_ub:
+        if not result_0.is_significant:
             return 0.0
 
         # Find a value of M large enough for the CI to include zero
         lo, hi = 0.0, 10.0
         result_large = self.fit(results, M=hi)
-        while not (result_large.ci_lb <= 0 <= result_large.ci_ub):
+        while result_large.is_significant:
             if hi > 1e9:
                 return None  # Always significant
             lo, hi = hi, 2 * hi
@@ -1432,7 +1432,7 @@ class HonestDiD:
             if not lo < mid < hi:
                 break  # floating-point resolution reached
             result = self.fit(results, M=mid)
-            if result.ci_lb <= 0 <= result.ci_ub:
+            if not result.is_significant:
                 hi = mid
             else:
                 lo = mid
-- 
2.43.0


From 880ad00e844d91a16d55b613f5f5914032c5c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 56/80] fix: repr of SensitivityResults shows a breakdown value
 of zero

---
 diff_diff/honest_did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 869b5e4..26fe6d0 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -377,7 +377,7 @@ class SensitivityResults:
     alpha: float = 0.05
 
     def __repr__(self) -> str:
-        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M else "None"
+        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M is not None else "None"
         return (
             f"SensitivityResults(n_M={len(self.M_values)}, "
             f"breakdown_M={breakdown_str})"
-- 
2.43.0


From d3ddc969e295d740226cc902aacf232ff7137f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 57/80] fix: placebo summary states the significance level the
 test used

---
 diff_diff/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 167d19e..6bed844 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -143,14 +143,14 @@ class PlaceboTestResults:
 
         if self.is_significant:
             lines.append(
-                "WARNING: Significant placebo effect detected (p < 0.05)."
+                f"WARNING: Significant placebo effect detected (p < {self.alpha:g})."
             )
             lines.append(
                 "This suggests potential violations of the parallel trends assumption."
             )
         else:
             lines.append(
-                "No significant placebo effect detected (p >= 0.05)."
+                f"No significant placebo effect detected (p >= {self.alpha:g})."
             )
             lines.append(
                 "This is consistent with the parallel trends assumption."
-- 
2.43.0


From a011c96c142153d32acf08179ac93705edf5d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 58/80] fix: leave-one-out summary is taken over the estimates
 that exist

---
 diff_diff/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 6bed844..65e927a 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -120,7 +120,7 @@ class PlaceboTestResults:
 
         if self.leave_one_out_effects is not None:
             n_units = len(self.leave_one_out_effects)
-            effects = list(self.leave_one_out_effects.values())
+            effects = [v for v in self.leave_one_out_effects.values() if not np.isnan(v)]
             lines.extend([
                 "",
                 "-" * 65,
-- 
2.43.0


From 5a7a42468ff209f14216909f0ffc01914ea8f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 59/80] fix: HonestDiD refuses an event study without usable
 post-treatment effects

---
 diff_diff/honest_did.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 26fe6d0..5af0d00 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -604,6 +604,11 @@ def _extract_event_study_params(
                 # Split into pre and post
                 pre_times = [t for t in rel_times if t < 0]
                 post_times = [t for t in rel_times if t >= 0]
+                if not post_times:
+                    raise ValueError(
+                        "No post-treatment event study effects with finite standard "
+                        "errors found; sensitivity analysis needs at least one."
+                    )
 
                 effects = []
                 ses = []
-- 
2.43.0


From 1dcc2a408bb9580e6f749e5e2765183c83785cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 60/80] fix: plot_honest_event_study draws intervals that do
 not contain an estimate

---
 diff_diff/visualization.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 3ba3a80..ec19ca0 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -843,12 +843,16 @@ def plot_honest_event_study(
     )
 
     # Plot honest CIs (thicker, foreground)
-    yerr_honest = [
-        [e - lower for e, lower in zip(effects, honest_ci_lower)],
-        [u - e for e, u in zip(effects, honest_ci_upper)]
+    # The robust interval need not contain the period's own estimate, so the
+    # bars are centred on the interval itself (error bars cannot be negative).
+    honest_mid = [
+        (lower + upper) / 2 for lower, upper in zip(honest_ci_lower, honest_ci_upper)
+    ]
+    honest_half = [
+        (upper - lower) / 2 for lower, upper in zip(honest_ci_lower, honest_ci_upper)
     ]
     ax.errorbar(
-        x_vals, effects, yerr=yerr_honest,
+        x_vals, honest_mid, yerr=honest_half,
         fmt='none', color=honest_color, capsize=capsize,
         linewidth=2, label=f'Honest CI (M={honest_results.M:.2f})'
     )
-- 
2.43.0


From a5ce16f1c96b01e76e9031668de253810803e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 61/80] fix: the MDE/MDV marker lies on the power curve for
 arrays and unsorted grids

---
 diff_diff/visualization.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index ec19ca0..4d9e0d7 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -1406,17 +1406,17 @@ def plot_power_curve(
 
         # Mark intersection point
         # Find power at MDE
-        if mde in effect_sizes:
-            idx = effect_sizes.index(mde)
-            power_at_mde = powers[idx]
+        effect_arr = np.asarray(effect_sizes)
+        power_arr = np.asarray(powers)
+        exact = np.flatnonzero(effect_arr == mde)
+        if len(exact):
+            power_at_mde = power_arr[exact[0]]
+        elif effect_arr.min() <= mde <= effect_arr.max():
+            # Interpolate (np.interp needs increasing abscissae)
+            order = np.argsort(effect_arr, kind="stable")
+            power_at_mde = np.interp(mde, effect_arr[order], power_arr[order])
         else:
-            # Interpolate
-            effect_arr = np.array(effect_sizes)
-            power_arr = np.array(powers)
-            if effect_arr.min() <= mde <= effect_arr.max():
-                power_at_mde = np.interp(mde, effect_arr, power_arr)
-            else:
-                power_at_mde = None
+            power_at_mde = None
 
         if power_at_mde is not None:
             ax.scatter(
@@ -1650,8 +1650,9 @@ def plot_pretrends_power(
         # Mark intersection point if we have powers
         if powers is not None:
             # Find power at MDV (interpolate)
-            M_arr = np.array(M_values)
-            power_arr = np.array(powers)
+            order = np.argsort(M_values, kind="stable")
+            M_arr = np.asarray(M_values)[order]
+            power_arr = np.asarray(powers)[order]
             if M_arr.min() <= mdv <= M_arr.max():
                 power_at_mdv = np.interp(mdv, M_arr, power_arr)
                 ax.scatter(
-- 
2.43.0


From 1a384db7cd6bafb9da8b74a70cceca7975983e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 62/80] fix: plot_pretrends_power draws the curve's own target
 power

---
 diff_diff/visualization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 4d9e0d7..1a8e0da 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -1456,7 +1456,7 @@ def plot_pretrends_power(
     M_values: Optional[List[float]] = None,
     powers: Optional[List[float]] = None,
     mdv: Optional[float] = None,
-    target_power: float = 0.80,
+    target_power: Optional[float] = None,
     figsize: Tuple[float, float] = (10, 6),
     title: str = "Pre-Trends Test Power Curve",
     xlabel: str = "Violation Magnitude (M)",
@@ -1489,7 +1489,8 @@ def plot_pretrends_power(
         Power values (y-axis). Required if results is None.
     mdv : float, optional
         Minimum detectable violation to mark on the plot.
-    target_power : float, default=0.80
+    target_power : float, optional
+        If None, taken from the results when they carry one, otherwise 0.80.
         Target power level to show as horizontal line.
     figsize : tuple, default=(10, 6)
         Figure size (width, height) in inches.
@@ -1593,6 +1594,8 @@ def plot_pretrends_power(
             # Single PreTrendsPowerResults - create a simple plot
             if mdv is None:
                 mdv = results.mdv
+            if target_power is None:
+                target_power = getattr(results, "target_power", None)
             # Create minimal curve around MDV
             if np.isfinite(mdv):
                 M_values = [0, mdv * 0.5, mdv, mdv * 1.5, mdv * 2]
@@ -1610,6 +1613,9 @@ def plot_pretrends_power(
             "Must provide either 'results' or both 'M_values' and 'powers'"
         )
 
+    if target_power is None:
+        target_power = 0.80
+
     # Create figure if needed
     if ax is None:
         fig, ax = plt.subplots(figsize=figsize)
-- 
2.43.0


From 67bf31086b4f502c93dd532ea281d4d35ca82f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 63/80] fix: built-in datasets no longer reseed NumPy's global
 generator

---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..b3a23cc 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -160,7 +160,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -171,8 +171,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -182,8 +182,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -193,8 +193,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -204,8 +204,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -305,7 +305,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -328,9 +328,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -342,15 +342,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -454,7 +454,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -477,9 +477,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -512,11 +512,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -601,7 +601,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -612,9 +612,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -633,8 +633,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From 5c282d9e599e85ebcaa576f2f74ec201e182f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 64/80] fix: a download that breaks off falls back like one
 that cannot start

---
 diff_diff/datasets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index b3a23cc..3eaeea0 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,10 +8,10 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
 from typing import Dict
-from urllib.error import HTTPError, URLError
 from urllib.request import urlopen
 
 import numpy as np
@@ -42,9 +42,8 @@ def _download_with_cache(
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            cache_path.write_text(content)
-            return content
-    except (HTTPError, URLError) as e:
+    except (OSError, HTTPException) as e:
+        # URLError, HTTPError, timeouts and broken connections
         if cache_path.exists():
             # Use cached version if download fails
             return cache_path.read_text()
@@ -53,6 +52,9 @@ def _download_with_cache(
             "Check your internet connection or try again later."
         ) from e
 
+    cache_path.write_text(content)
+    return content
+
 
 def clear_cache() -> None:
     """Clear the local dataset cache."""
-- 
2.43.0


From 8b39fb3d1bb0ccbe5cd49d28b2778c0cfab6ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 65/80] fix: an interrupted write never leaves a truncated
 dataset in the cache

---
 diff_diff/datasets.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index 3eaeea0..90dd66f 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -37,7 +37,7 @@ def _download_with_cache(
     cache_path = _get_cache_path(name)
 
     if cache_path.exists() and not force_download:
-        return cache_path.read_text()
+        return cache_path.read_text(encoding="utf-8")
 
     try:
         with urlopen(url, timeout=30) as response:
@@ -46,13 +46,20 @@ def _download_with_cache(
         # URLError, HTTPError, timeouts and broken connections
         if cache_path.exists():
             # Use cached version if download fails
-            return cache_path.read_text()
+            return cache_path.read_text(encoding="utf-8")
         raise RuntimeError(
             f"Failed to download dataset '{name}' from {url}: {e}\n"
             "Check your internet connection or try again later."
         ) from e
 
-    cache_path.write_text(content)
+    # Complete the file before it takes its place in the cache: a write that is
+    # cut short must not leave a truncated dataset to be served later.
+    partial = cache_path.with_name(cache_path.name + ".part")
+    try:
+        partial.write_text(content, encoding="utf-8")
+        partial.replace(cache_path)
+    finally:
+        partial.unlink(missing_ok=True)
     return content
 
 
-- 
2.43.0


From b4e7e42546fccb3df7cc6b8f6c6355b00bf6fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 66/80] fix: set_params refuses the choices the constructor
 refuses

---
 diff_diff/pretrends.py     |  3 +++
 diff_diff/staggered.py     | 12 ++++++++++++
 diff_diff/sun_abraham.py   |  3 +++
 diff_diff/synthetic_did.py |  3 +++
 diff_diff/triple_diff.py   |  3 +++
 diff_diff/trop.py          |  3 +++
 6 files changed, 27 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 96c378b..cc87d25 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -477,6 +477,9 @@ class PreTrendsPower:
 
     def set_params(self, **params) -> "PreTrendsPower":
         """Set parameters for this estimator."""
+        # Values the constructor refuses are refused here too
+        current = self.get_params()
+        type(self)(**{key: params.get(key, value) for key, value in current.items()})
         for key, value in params.items():
             if key == "power":
                 self.target_power = value
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 14a987f..c59c0b6 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1100,6 +1100,18 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
+        # Choices the constructor refuses are refused here too
+        names = (
+            "control_group",
+            "estimation_method",
+            "bootstrap_weights",
+            "rank_deficient_action",
+            "base_period",
+        )
+        choices = {key: params[key] for key in names if key in params}
+        if "bootstrap_weight_type" in params:
+            choices.setdefault("bootstrap_weights", params["bootstrap_weight_type"])
+        type(self)(**choices)
         for key, value in params.items():
             if hasattr(self, key):
                 setattr(self, key, value)
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index a7b2136..d0203b0 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1178,6 +1178,9 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
+        # Choices the constructor refuses are refused here too
+        names = ("control_group", "rank_deficient_action")
+        type(self)(**{key: params[key] for key in names if key in params})
         for key, value in params.items():
             if hasattr(self, key):
                 setattr(self, key, value)
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 6bef131..cfc9d55 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -740,6 +740,9 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
+        # Choices the constructor refuses are refused here too
+        names = ("variance_method",)
+        type(self)(**{key: params[key] for key in names if key in params})
         for key, value in params.items():
             if hasattr(self, key):
                 setattr(self, key, value)
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index aff4d6a..8f97f65 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1170,6 +1170,9 @@ class TripleDifference:
         -------
         self
         """
+        # Choices the constructor refuses are refused here too
+        names = ("estimation_method", "rank_deficient_action")
+        type(self)(**{key: params[key] for key in names if key in params})
         for key, value in params.items():
             if hasattr(self, key):
                 setattr(self, key, value)
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 9e3ca75..9567026 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -3066,6 +3066,9 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
+        # Choices the constructor refuses are refused here too
+        names = ("method", "variance_method")
+        type(self)(**{key: params[key] for key in names if key in params})
         for key, value in params.items():
             if hasattr(self, key):
                 setattr(self, key, value)
-- 
2.43.0


From e833e2a4804922fb39cee336bfc3fb631a6e0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 67/80] fix: an unknown inference method or rank action is
 refused, not ignored

---
 diff_diff/estimators.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index eba4566..e1f611b 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -128,6 +128,15 @@ class DifferenceInDifferences:
         seed: Optional[int] = None,
         rank_deficient_action: str = "warn",
     ):
+        if inference not in ("analytical", "wild_bootstrap"):
+            raise ValueError(
+                f"inference must be 'analytical' or 'wild_bootstrap', got '{inference}'"
+            )
+        if rank_deficient_action not in ("warn", "error", "silent"):
+            raise ValueError(
+                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
+                f"got '{rank_deficient_action}'"
+            )
         self.robust = robust
         self.cluster = cluster
         self.alpha = alpha
@@ -656,6 +665,9 @@ class DifferenceInDifferences:
         -------
         self
         """
+        # Choices the constructor refuses are refused here too
+        names = ("inference", "rank_deficient_action")
+        type(self)(**{key: params[key] for key in names if key in params})
         for key, value in params.items():
             if hasattr(self, key):
                 setattr(self, key, value)
-- 
2.43.0


From 6be1bae4729b723136a013f2a33e3df881177850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 68/80] fix: TROP refuses a treatment indicator other than 0
 and 1

---
 diff_diff/trop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 9567026..d2e2dbf 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -42,7 +42,7 @@ from diff_diff._backend import (
     _rust_bootstrap_trop_variance_joint,
 )
 from diff_diff.results import _get_significance_stars
-from diff_diff.utils import compute_confidence_interval, compute_p_value
+from diff_diff.utils import compute_confidence_interval, compute_p_value, validate_binary
 
 
 # Sentinel value for "disabled" mode in LOOCV parameter search
@@ -1878,6 +1878,8 @@ class TROP:
         if missing:
             raise ValueError(f"Missing columns: {missing}")
 
+        validate_binary(data[treatment].to_numpy(dtype=float), "treatment")
+
         # Dispatch based on estimation method
         if self.method == "joint":
             return self._fit_joint(data, outcome, treatment, unit, time)
-- 
2.43.0


From e3781e4657dc5fc30ab780abd687a435976ef0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 69/80] fix: SyntheticDiD refuses a treatment column that
 varies within a unit

---
 diff_diff/synthetic_did.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index cfc9d55..b5e89a2 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -246,6 +246,11 @@ class SyntheticDiD(DifferenceInDifferences):
 
         # Identify treated and control units
         # Treatment indicator should be constant within unit
+        if (data.groupby(unit)[treatment].nunique() > 1).any():
+            raise ValueError(
+                f"'{treatment}' must be constant within each unit: 1 for all "
+                f"observations of treated units (both pre and post treatment)"
+            )
         unit_treatment = data.groupby(unit)[treatment].first()
         treated_units = unit_treatment[unit_treatment == 1].index.tolist()
         control_units = unit_treatment[unit_treatment == 0].index.tolist()
-- 
2.43.0


From 9adfde743bac645a13b3c802f239774917a2d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 70/80] fix: CallawaySantAnna refuses an unknown aggregate
 instead of ignoring it

---
 diff_diff/staggered.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index c59c0b6..003c176 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -630,6 +630,12 @@ class CallawaySantAnna(
         if missing:
             raise ValueError(f"Missing columns: {missing}")
 
+        if aggregate not in (None, "simple", "event_study", "group", "all"):
+            raise ValueError(
+                f"aggregate must be None, 'simple', 'event_study', 'group', or 'all', "
+                f"got '{aggregate}'"
+            )
+
         # Create working copy
         df = data.copy()
 
-- 
2.43.0


From 87deb937957c5fa4084effe5da67d72830a66b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 71/80] fix: drop dependent columns in order, so an
 unidentified effect is not reported

---
 diff_diff/linalg.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 869a32a..5409090 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -89,9 +89,8 @@ def _detect_rank_deficiency(
     """
     Detect rank deficiency using pivoted QR decomposition.
 
-    This follows R's lm() approach of using pivoted QR to detect which columns
-    are linearly dependent. The pivoting ensures we drop the "least important"
-    columns (those with smallest contribution to the column space).
+    Which columns are dropped follows R's lm(): those that are linear
+    combinations of the columns before them.
 
     Parameters
     ----------
@@ -134,10 +133,29 @@ def _detect_rank_deficiency(
     independent = r_diag > rcond * np.linalg.norm(X, axis=0)[pivot]
     rank = int(np.sum(independent))
 
-    # Map dependent columns back to original column indices
-    dropped_cols = np.sort(pivot[~independent])
+    if rank == k:
+        return rank, np.array([], dtype=int), pivot
+
+    # The columns are dependent. Pivoting takes the longest column first, so it
+    # says little about which one to leave out: in a 2x2 design with an empty
+    # cell it may keep the interaction and drop a main effect, and a
+    # coefficient that is not identified would be reported. Like R's lm(), go
+    # through the columns in order and drop those that are combinations of the
+    # columns before them.
+    basis = np.empty((n, 0))
+    kept, dropped = [], []
+    for j in range(k):
+        rest = X[:, j].astype(float)
+        for _ in range(2):  # the second pass removes rounding errors
+            rest = rest - basis @ (basis.T @ rest)
+        norm = np.linalg.norm(rest)
+        if norm > rcond * np.linalg.norm(X[:, j]):
+            basis = np.column_stack([basis, rest / norm])
+            kept.append(j)
+        else:
+            dropped.append(j)
 
-    return rank, dropped_cols, pivot
+    return len(kept), np.array(dropped, dtype=int), np.array(kept + dropped, dtype=int)
 
 
 def _scaled_lstsq(X: np.ndarray, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 48611cad2b77162eb2b1a7ea83ce727f6c95b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 72/80] fix: skip a never-treated Bacon comparison with an
 empty cell, like the others

---
 diff_diff/bacon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 1ebda76..f900bf2 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -730,6 +730,11 @@ class BaconDecomposition:
         never_pre = df_never[df_never[time].isin(pre_periods)][outcome].mean()
         never_post = df_never[df_never[time].isin(post_periods)][outcome].mean()
 
+        if np.isnan(treated_pre) or np.isnan(treated_post):
+            return None
+        if np.isnan(never_pre) or np.isnan(never_post):
+            return None
+
         estimate = (treated_post - treated_pre) - (never_post - never_pre)
 
         # Calculate weight components
-- 
2.43.0


From c07330be959ab337d630787d6023b6d1d2d0698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 73/80] fix: within_transform replaces columns that already
 bear its output names

---
 diff_diff/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 65aece0..fffb4f6 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1525,6 +1525,9 @@ def within_transform(
             columns=[f"{var}{suffix}" for var in variables],
             index=data.index,
         )
-        data = pd.concat([data, demeaned_df], axis=1)
+        # (replacing columns that bear these names already)
+        data = pd.concat(
+            [data.drop(columns=demeaned_df.columns, errors="ignore"), demeaned_df], axis=1
+        )
 
     return data
-- 
2.43.0


From 879490493ce41d2ef7a685b10cc62b797d7d0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 74/80] fix: staggered estimators refuse missing, negative or
 within-unit varying treatment timing

---
 diff_diff/bacon.py       |  2 ++
 diff_diff/staggered.py   |  2 ++
 diff_diff/sun_abraham.py |  2 ++
 diff_diff/utils.py       | 36 ++++++++++++++++++++++++++++++++++++
 4 files changed, 42 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index f900bf2..bff7a2a 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -17,6 +17,7 @@ from typing import Any, Dict, List, Optional, Tuple
 import numpy as np
 import pandas as pd
 
+from diff_diff.utils import validate_treatment_timing
 from diff_diff.utils import within_transform as _within_transform_util
 
 
@@ -446,6 +447,7 @@ class BaconDecomposition:
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        validate_treatment_timing(df, unit, time, first_treat)
 
         # Check for balanced panel
         periods_per_unit = df.groupby(unit)[time].count()
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 003c176..2db1aff 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -16,6 +16,7 @@ from diff_diff.linalg import solve_ols
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_treatment_timing,
 )
 
 # Import from split modules
@@ -642,6 +643,7 @@ class CallawaySantAnna(
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        validate_treatment_timing(df, unit, time, first_treat)
 
         # Never-treated units may be coded 0 or np.inf; inf is not a cohort
         df[first_treat] = df[first_treat].replace(np.inf, 0)
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index d0203b0..8f5b297 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -21,6 +21,7 @@ from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_treatment_timing,
     within_transform as _within_transform_util,
 )
 
@@ -485,6 +486,7 @@ class SunAbraham:
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        validate_treatment_timing(df, unit, time, first_treat)
 
         # Never-treated units may be coded 0 or np.inf; inf is not a cohort
         df[first_treat] = df[first_treat].replace(np.inf, 0)
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index fffb4f6..52be322 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -51,6 +51,42 @@ def validate_binary(arr: np.ndarray, name: str) -> None:
         )
 
 
+def validate_treatment_timing(
+    data: pd.DataFrame, unit: str, time: str, first_treat: str
+) -> None:
+    """
+    Validate the first-treatment column of a staggered-adoption panel.
+
+    Parameters
+    ----------
+    data : pd.DataFrame
+        Panel data with a numeric first-treatment column.
+    unit : str
+        Name of the unit identifier column.
+    time : str
+        Name of the time period column.
+    first_treat : str
+        Name of the first-treatment column (0 or np.inf for never-treated).
+
+    Raises
+    ------
+    ValueError
+        If unit, time or first_treat has missing values, or if the first
+        treatment is negative or differs between rows of the same unit.
+    """
+    for col in (unit, time, first_treat):
+        if data[col].isna().any():
+            raise ValueError(f"Column '{col}' contains missing values")
+
+    timing = data[first_treat].replace(np.inf, 0)
+    if (timing < 0).any():
+        raise ValueError(
+            f"'{first_treat}' must not be negative; use 0 (or np.inf) for never-treated units"
+        )
+    if (timing.groupby(data[unit].to_numpy(), sort=False).nunique() > 1).any():
+        raise ValueError(f"'{first_treat}' must be constant within each unit")
+
+
 def compute_robust_se(
     X: np.ndarray,
     residuals: np.ndarray,
-- 
2.43.0


From 1446d0f1c8f259140a788f5fa4a110a23b0eb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 75/80] fix: SyntheticDiD and TROP refuse a missing treatment
 indicator

---
 diff_diff/synthetic_did.py | 2 ++
 diff_diff/trop.py          | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index b5e89a2..9a9bcd2 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -218,6 +218,8 @@ class SyntheticDiD(DifferenceInDifferences):
 
         # Validate treatment is binary
         validate_binary(data[treatment].values, "treatment")
+        if data[treatment].isna().any():
+            raise ValueError(f"Treatment column '{treatment}' contains missing values")
 
         # Get all unique time periods
         all_periods = sorted(data[time].unique())
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index d2e2dbf..aa08691 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1879,6 +1879,10 @@ class TROP:
             raise ValueError(f"Missing columns: {missing}")
 
         validate_binary(data[treatment].to_numpy(dtype=float), "treatment")
+        if (data[treatment].isna() & data[outcome].notna()).any():
+            raise ValueError(
+                f"Treatment column '{treatment}' is missing for observed outcomes"
+            )
 
         # Dispatch based on estimation method
         if self.method == "joint":
-- 
2.43.0


From effd7f805ca7c7b27948e10ac72897c256a22869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 76/80] fix: TwoWayFixedEffects refuses a treatment indicator
 other than 0 and 1

---
 diff_diff/twfe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index e7301d0..43bfb9f 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -17,6 +17,7 @@ from diff_diff.results import DiDResults
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_binary,
     within_transform as _within_transform_util,
 )
 
@@ -90,6 +91,9 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         if unit not in data.columns:
             raise ValueError(f"Unit column '{unit}' not found in data")
 
+        # Validate treatment is binary
+        validate_binary(data[treatment].to_numpy(dtype=float), "treatment")
+
         # Check for staggered treatment timing and warn if detected
         self._check_staggered_treatment(data, treatment, time, unit)
 
-- 
2.43.0


From 7e809f546fde002e64add0176fc394c351d75bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 77/80] fix: TROP refuses missing unit or time identifiers

---
 diff_diff/trop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index aa08691..44be583 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1878,6 +1878,9 @@ class TROP:
         if missing:
             raise ValueError(f"Missing columns: {missing}")
 
+        for col in (unit, time):
+            if data[col].isna().any():
+                raise ValueError(f"Column '{col}' contains missing values")
         validate_binary(data[treatment].to_numpy(dtype=float), "treatment")
         if (data[treatment].isna() & data[outcome].notna()).any():
             raise ValueError(
-- 
2.43.0


From d4bab5ee0861c5f82cd9552c626ed2e1c2d9e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 78/80] fix: cluster-robust covariance refuses missing cluster
 labels

---
 diff_diff/linalg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 5409090..c8e03e1 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -860,6 +860,8 @@ def _compute_robust_vcov_numpy(
     else:
         # Cluster-robust standard errors (vectorized via groupby)
         cluster_ids = np.asarray(cluster_ids)
+        if pd.isna(cluster_ids).any():
+            raise ValueError("cluster_ids must not contain missing values")
         unique_clusters = np.unique(cluster_ids)
         n_clusters = len(unique_clusters)
 
-- 
2.43.0


From 14b81b3a3b3ab0e188a17be70f829ae6a8d0c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 79/80] fix: dummy fixed effects refuse missing values like
 absorbed ones

---
 diff_diff/estimators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index e1f611b..a77254f 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -232,6 +232,8 @@ class DifferenceInDifferences:
             for fe in fixed_effects:
                 if fe not in data.columns:
                     raise ValueError(f"Fixed effect column '{fe}' not found in data")
+                if data[fe].isna().any():
+                    raise ValueError(f"Fixed effect column '{fe}' contains missing values")
         if absorb:
             for ab in absorb:
                 if ab not in data.columns:
@@ -868,6 +870,8 @@ class MultiPeriodDiD(DifferenceInDifferences):
             for fe in fixed_effects:
                 if fe not in data.columns:
                     raise ValueError(f"Fixed effect column '{fe}' not found in data")
+                if data[fe].isna().any():
+                    raise ValueError(f"Fixed effect column '{fe}' contains missing values")
         if absorb:
             for ab in absorb:
                 if ab not in data.columns:
-- 
2.43.0


From 504f972d53ed13a919aa993b3fec58f17e006958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 80/80] fix: SunAbraham estimates every relative period instead
 of leaving those beyond +-20 in the reference group

---
 diff_diff/sun_abraham.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 8f5b297..988cdd3 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -538,10 +538,6 @@ class SunAbraham:
 
         all_rel_times_sorted = sorted(all_rel_times)
 
-        # Filter to reasonable range
-        min_rel = max(min(all_rel_times_sorted), -20)  # cap at -20
-        max_rel = min(max(all_rel_times_sorted), 20)   # cap at +20
-
         # Reference period: last pre-treatment period (typically -1)
         self._reference_period = -1 - self.anticipation
 
@@ -549,7 +545,7 @@ class SunAbraham:
         rel_periods_to_estimate = [
             e
             for e in all_rel_times_sorted
-            if min_rel <= e <= max_rel and e != self._reference_period
+            if e != self._reference_period
         ]
 
         # Determine cluster variable
-- 
2.43.0

