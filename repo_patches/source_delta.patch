From e31db8475d79ae01f9000c5976f8908d58fc0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 01/34] fix: embargo each test block from its own evaluation
 times

The test indices were sliced by position instead of by value, so with several
test blocks the evaluation times of later blocks purged train samples that
precede those blocks.
---
 mizarlabs/model/model_selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 021e20b..083627e 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -286,7 +286,9 @@ def embargo(
             "The passed cross-validation object should have a "
             "member cv.embargo_td defining the embargo time."
         )
-    last_test_eval_time = cv.eval_times.iloc[test_indices[:test_fold_end]].max()
+    last_test_eval_time = cv.eval_times.iloc[
+        test_indices[test_indices < test_fold_end]
+    ].max()
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-- 
2.43.0


From 514d6cd583caa46fa3b0652b873c2f8763f2ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 02/34] fix: apply the embargo when it covers every later train
 sample

The embargo was skipped altogether when no sample is predicted after it ends,
which leaked all the train samples that follow the test block.
---
 mizarlabs/model/model_selection.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 083627e..66c66e0 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -292,12 +292,10 @@ def embargo(
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-    if min_train_index < cv.indices.shape[0]:
-        allowed_indices = np.concatenate(
-            (cv.indices[:test_fold_end], cv.indices[min_train_index:])
-        )
-        train_indices = np.intersect1d(train_indices, allowed_indices)
-    return train_indices
+    allowed_indices = np.concatenate(
+        (cv.indices[:test_fold_end], cv.indices[min_train_index:])
+    )
+    return np.intersect1d(train_indices, allowed_indices)
 
 
 def purge(
-- 
2.43.0


From d4d88208760cdcf25e354248f6fd715c8d0986c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 03/34] fix: number of backtest paths follows from the number
 of groups

The number of train/test splits was used instead, so building the paths popped
from an empty list whenever more than one group is tested per split.
---
 mizarlabs/model/model_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 66c66e0..81461ad 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -434,7 +434,7 @@ def combinatorial_cross_validation_paths(
 
             bound_pred_dict[test_bound[0]].append(tmp_df)
 
-    n_paths = compute_back_test_paths(cv.n_splits, cv.n_test_splits)
+    n_paths = compute_back_test_paths(cv.n_groups, cv.n_test_splits)
     paths = []
 
     # from the sub test computed create paths randomly picking one sub test
-- 
2.43.0


From ce19eb4eefcc421ce55fcb645e049c361c2be78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 04/34] fix: accept a float max_features with numpy >= 1.24

np.float was an alias of the builtin and no longer exists.
---
 mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 01f08e7..2b20f66 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -375,7 +375,7 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
         # Validate max_features
         if isinstance(self.max_features, (numbers.Integral, np.integer)):
             max_features = self.max_features
-        elif isinstance(self.max_features, np.float):
+        elif isinstance(self.max_features, float):
             max_features = self.max_features * self.n_features_
         else:
             raise ValueError("max_features must be int or float")
-- 
2.43.0


From 3fbbe4717342dbb7a844b63862e32cb9e33b0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 05/34] fix: consult the closing positions model

The guard looked for a misspelled attribute, so the model was never asked.
---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 9fb5ed3..dc255ed 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -681,7 +681,7 @@ class StrategySignalPipeline:
 
     def determine_positions_to_close(self, X_dict: Dict[str, pd.DataFrame]):
         positions_to_close = None
-        if hasattr(self, "closing_position_model") and self.closing_positions_model:
+        if hasattr(self, "closing_positions_model") and self.closing_positions_model:
             positions_to_close = self.closing_positions_model.close_positions(X_dict)
 
         if positions_to_close not in ("all", "long", "short", None):
-- 
2.43.0


From 3622c96f475134fc5bb254a1b016dbea9ce41f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 06/34] fix: do not add the strategy bar columns to the
 caller's bars

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index dc255ed..95b1116 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -797,7 +797,7 @@ class StrategyTrader:
 
         # target dataframe is extracted so that the volatility can be
         # calculated
-        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_]
+        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_].copy()
 
         volatility_adjusted_stop_loss = (
             self.volatility_adjusted_stop_loss
-- 
2.43.0


From 66e4ca031665339cce2a20f87d25d2c15d699db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 07/34] fix: trend scanner keeps no events from a previous call

Without t_events the first call stored its own index as the events of every
later call.
---
 mizarlabs/transformers/targets/trend_scanning.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index b7ede78..f288dd0 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -77,9 +77,10 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         assert set(required_columns) == set(
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
-        assert set(self.t_events) == set(
-            output_df.index.values
-        ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+        if self.t_events is not None:
+            assert set(self.t_events) == set(
+                output_df.index.values
+            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
@@ -117,13 +118,12 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        if self.t_events is None:
-            self.t_events = y.index.values
+        t_events = y.index.values if self.t_events is None else self.t_events
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
             y_array=y.values.astype(np.float64),
-            indices=y.index.get_indexer(self.t_events),
+            indices=y.index.get_indexer(t_events),
             min_sample_length=self.min_sample_length,
             look_forward_window=self.look_forward_window,
             step=self.step,
@@ -137,7 +137,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         # cast results into dataframe and compute the returns and the sign of the return
         labels = pd.DataFrame(
             {EVENT_END_TIME: event_end_times_array, T_VALUE: t_values_array},
-            index=self.t_events,
+            index=t_events,
         )
         non_nan_labels = labels[EVENT_END_TIME].dropna()
         labels.loc[non_nan_labels.index, RETURN] = (
-- 
2.43.0


From 1b5ece4ff15f1ca7fe75663a78c400ecc9a24308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 08/34] fix: trend scanner ignores the windows skipped by step

The t-values of the skipped windows were uninitialised memory and took part in
the search for the largest t-value.
---
 mizarlabs/transformers/targets/trend_scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index f288dd0..9092008 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -231,7 +231,7 @@ def _get_t_val_and_event_end_time_index_at_index(
     """
 
     # init array to stores t values in
-    t_values_array = np.empty(y_subset.shape[0] - min_sample_length)
+    t_values_array = np.zeros(y_subset.shape[0] - min_sample_length)
 
     # expand forward looking window, compute and store t value, keeping into account
     # the min_sample_length and the stepsize
-- 
2.43.0


From c9deefd0342320ff0823d1ce2b59112a4ebed309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 09/34] fix: read the documented TA-lib signature, not the
 Cython one

The docstrings of recent TA-lib versions start with the typed Cython signature,
so no transformer that takes columns or keyword arguments could be created.
---
 mizarlabs/transformers/technical/factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/technical/factory.py b/mizarlabs/transformers/technical/factory.py
index 6082354..8bb8d2a 100644
--- a/mizarlabs/transformers/technical/factory.py
+++ b/mizarlabs/transformers/technical/factory.py
@@ -52,7 +52,10 @@ class TAFactory:
         :rtype: Tuple[List[str]]
         """
         ta_func = self.get_ta_func(func_name)
-        signature = re.search(r"\((.+)\)", ta_func.__doc__).group(1)
+        # recent TA-lib versions put the Cython signature above the documented one
+        signature = re.findall(
+            rf"^{func_name}\((.+)\)", ta_func.__doc__, flags=re.MULTILINE
+        )[-1]
 
         args_kwargs_names = signature.split("[, ")
         if len(args_kwargs_names) == 1:
-- 
2.43.0


From 4fc09292b47b53fa24f32f6b38839ace185d05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 10/34] fix: name the metalabeling features consistently

The predictions of the primary model are added under string names to features
that can have integer names, a mix which scikit-learn >= 1.2 rejects.
---
 mizarlabs/model/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 95b1116..d8f6ce9 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -431,6 +431,8 @@ class StrategySignalPipeline:
                 "model does not create any nan values when "
                 "it predicts"
             )
+        # models do not accept a mix of string and other feature names
+        X_metalabel_aligned.columns = X_metalabel_aligned.columns.astype(str)
         return X_metalabel_aligned
 
     def predict(
-- 
2.43.0


From 09b24e3d9a4d9b4d6241766a0d8f354593378903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 11/34] fix: estimators_samples_ returns the sequentially
 bootstrapped samples

The inherited property regenerates the draws of a plain bootstrap.
---
 .../model/sequentially_bootstrapped_bagging_classifier.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 2b20f66..43b62fc 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -265,6 +265,11 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
             )
         return self._ind_mat
 
+    @property
+    def estimators_samples_(self):
+        """The samples drawn for each of the base estimators."""
+        return self.sequentially_bootstrapped_samples_
+
     def fit(
         self,
         X: pd.DataFrame,
-- 
2.43.0


From 5f30556cb2208570f3b727ee05180e0707cb1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 12/34] fix: a singular regression gives NaN in the structural
 break tests

The exception raised by a worker of the parallel loop is swallowed, and the
results of the whole chunk of that worker are left uninitialised.
---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 mizarlabs/structural_breaks/sdfc.py | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index d4d965b..b675f8c 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -87,7 +87,7 @@ class SupremumAugmentedDickeyFullerStatTest:
         return pd.Series(sadf_array, index=indices)
 
 
-@jit(parallel=False, nopython=True)
+@jit(parallel=False, nopython=True, error_model="numpy")
 def _get_sadf_at_t(
     X: np.ndarray, y: np.ndarray, min_length: int, model: str, phi: float
 ) -> np.float64:
diff --git a/mizarlabs/structural_breaks/sdfc.py b/mizarlabs/structural_breaks/sdfc.py
index 115936f..9c583ef 100644
--- a/mizarlabs/structural_breaks/sdfc.py
+++ b/mizarlabs/structural_breaks/sdfc.py
@@ -38,7 +38,7 @@ def get_dfc_array(
     return dfc_array
 
 
-@njit
+@njit(error_model="numpy")
 def get_beta_and_beta_var(X: np.ndarray, y: np.ndarray) -> Tuple[float]:
     """
     Returns the OLS estimates of the coefficients and the variance of the coefficients.
@@ -53,7 +53,12 @@ def get_beta_and_beta_var(X: np.ndarray, y: np.ndarray) -> Tuple[float]:
     """
     Xy = np.dot(X.T, y)
     XX = np.dot(X.T, X)
-    XX_inv = np.linalg.inv(XX)
+    # an exception raised in a worker of a parallel loop is lost together with
+    # the results of that worker, a singular regression gives NaNs instead
+    try:
+        XX_inv = np.linalg.inv(XX)
+    except Exception:
+        XX_inv = np.full_like(XX, np.nan)
     beta_hat = np.dot(np.ascontiguousarray(XX_inv), Xy)
     err = y - np.dot(X, beta_hat)
     beta_hat_var = np.dot(err.T, err) / (X.shape[0] - X.shape[1]) * XX_inv
-- 
2.43.0


From b042009022c5caa9e409e73fdd065c4069769248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 13/34] fix: meta-label a history in which no event has ended
 yet

---
 mizarlabs/transformers/targets/labeling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 147878a..ab94a99 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -415,6 +415,7 @@ def get_labels(
         # correct. When the base model does not take a position or the returns
         #  are 0 then the metalabel will be na
         output_df[RETURN] *= events_without_na[SIDE]
+        output_df[LABEL] = np.nan
         output_df.loc[output_df[RETURN] > 0, LABEL] = 1
         output_df.loc[output_df[RETURN] < 0, LABEL] = 0
         output_df.loc[output_df[RETURN] == 0, LABEL] = np.nan
-- 
2.43.0


From 8980c5cf5dbc8717e393adf5774d8f885c14e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 14/34] fix: a flat or linear window does not spoil other trend
 labels

---
 mizarlabs/transformers/targets/trend_scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 9092008..fc55240 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -209,7 +209,7 @@ def _trend_scan_each_index(
     return t_values_array, end_indices_array
 
 
-@jit(nopython=True)
+@jit(nopython=True, error_model="numpy")
 def _get_t_val_and_event_end_time_index_at_index(
     y_subset: np.ndarray,
     min_sample_length: int,
-- 
2.43.0


From 7afb448f3337ccb8a1763a90b6f217d8479cb2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 15/34] fix: penalise martingale statistics by the length of
 the window as documented

---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index b675f8c..6385be4 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -124,7 +124,7 @@ def _get_sadf_at_t(
         if model[:2] == "sm":
             t = y.shape[0]
             t0 = start + 1  # t0 index starts from 1 to t - tau (page 260)
-            current_adf = np.abs(current_adf) / ((y.shape[0] - (t - t0)) ** phi)
+            current_adf = np.abs(current_adf) / ((t - t0) ** phi)
 
         adf_array[start] = current_adf
 
-- 
2.43.0


From 484579e59dbfc8840e52a71341db92fc16cef9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:21 +0000
Subject: [PATCH 16/34] fix: out-of-bag score of members that have seen only
 some of the classes

---
 .../model/sequentially_bootstrapped_bagging_classifier.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 43b62fc..21d402a 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -607,7 +607,8 @@ class SequentiallyBootstrappedBaggingClassifier(
             mask = ~indices_to_mask(samples, n_samples)
 
             if hasattr(estimator, "predict_proba"):
-                predictions[mask, :] += estimator.predict_proba(
+                # A member may have seen only some of the classes
+                predictions[np.ix_(mask, estimator.classes_)] += estimator.predict_proba(
                     (X[mask, :])[:, features]
                 )
 
-- 
2.43.0


From 8c4511864272185113becc237cb7c9ae693334c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:21 +0000
Subject: [PATCH 17/34] fix: out-of-bag score when a member has drawn every
 sample

---
 .../model/sequentially_bootstrapped_bagging_classifier.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 21d402a..d533f4a 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -606,6 +606,9 @@ class SequentiallyBootstrappedBaggingClassifier(
             # Create mask for OOB samples
             mask = ~indices_to_mask(samples, n_samples)
 
+            if not mask.any():
+                continue  # Every sample was drawn
+
             if hasattr(estimator, "predict_proba"):
                 # A member may have seen only some of the classes
                 predictions[np.ix_(mask, estimator.classes_)] += estimator.predict_proba(
-- 
2.43.0


From b3e293f69315336959fd595126598b6aa6069524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 18/34] fix: accept samples that all span the same bars

---
 mizarlabs/model/bootstrapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/bootstrapping.py b/mizarlabs/model/bootstrapping.py
index 593a663..b068046 100644
--- a/mizarlabs/model/bootstrapping.py
+++ b/mizarlabs/model/bootstrapping.py
@@ -70,7 +70,7 @@ def get_ind_matrix(
 
     ind_mat_csc = ind_mat.tocsc()
     assert np.max(ind_mat_csc) == 1
-    assert np.min(ind_mat_csc) == 0
+    assert np.min(ind_mat_csc) >= 0  # No zeros when every sample spans every bar
 
     if return_indices:
         return ind_mat, bar_index
-- 
2.43.0


From 7658e04785158de34ee77fb8438c872ed1c0217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 19/34] fix: VPIN of fewer bars than the window

---
 mizarlabs/transformers/microstructural_features/vpin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mizarlabs/transformers/microstructural_features/vpin.py b/mizarlabs/transformers/microstructural_features/vpin.py
index 2abf729..30ce5b1 100644
--- a/mizarlabs/transformers/microstructural_features/vpin.py
+++ b/mizarlabs/transformers/microstructural_features/vpin.py
@@ -73,10 +73,12 @@ class VPIN(BaseEstimator, TransformerMixin):
 
         vpin_feature = diff_volume / total_volume_windowed_sum
 
-        vpin_feature.iloc[self.window :] = vpin_feature[self.window :].fillna(0)
+        # There can be fewer bars than the window
+        is_warm = np.arange(len(vpin_feature)) >= self.window
+        vpin_feature[is_warm] = vpin_feature[is_warm].fillna(0)
 
         assert (
-            ~vpin_feature[self.window :].isna().any()
+            ~vpin_feature[is_warm].isna().any()
         ), "No NaNs are allowed after the warm-up period of the rolling window"
 
         return vpin_feature.values.reshape(-1, 1)
-- 
2.43.0


From b687a4060499e59a48f7fee67c7afb136c07072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 20/34] fix: a TA transformer keeps its own parameters

---
 mizarlabs/transformers/technical/factory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mizarlabs/transformers/technical/factory.py b/mizarlabs/transformers/technical/factory.py
index 8bb8d2a..3c90727 100644
--- a/mizarlabs/transformers/technical/factory.py
+++ b/mizarlabs/transformers/technical/factory.py
@@ -252,7 +252,5 @@ class TAFactory:
                     f"for the function {func_name}. Valid kwargs are: {kwargs_names_list}."
                 )
 
-        if kw_args is None:
-            kw_args = dict()
-
-        return kw_args
+        # copy, so that the transformer does not change when the caller reuses its dictionary
+        return dict(kw_args) if kw_args is not None else dict()
-- 
2.43.0


From e57b80b38afd18985277347d15b44a88aa708736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 21/34] fix: meta-model features without primary probabilities
 skip bars without a prediction

---
 mizarlabs/model/pipeline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index d8f6ce9..a028c4f 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -402,9 +402,14 @@ class StrategySignalPipeline:
         X_metalabel_aligned.dropna(inplace=True)
         # add primary model predict values for metalabel model as features
         if self.metalabeling_use_predictions_primary_model:
-            X_metalabel_aligned["primary_side_pred"] = pd.Series(
+            X_primary_pred_feature = pd.Series(
                 self.primary_model.predict(X_primary_aligned),
                 index=X_primary_aligned.index,
+                name="primary_side_pred",
+            )
+            # bars without a primary prediction are left out (see below)
+            X_metalabel_aligned = pd.concat(
+                [X_metalabel_aligned, X_primary_pred_feature], axis=1, join="inner"
             )
         # add primary model predict proba values for metalabel model as features
         if self.metalabeling_use_proba_primary_model:
-- 
2.43.0


From 9dad50da9ebd8ee2e19428c99e010a89ef9fb480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 22/34] fix: do not size bars without a side

---
 mizarlabs/model/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index a028c4f..10cb736 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -593,6 +593,8 @@ class StrategySignalPipeline:
                     self._primary_model_predictions
                 ]
                 pred_and_proba["side"] = predicted_side
+                # a bar without a side has no bet to size
+                pred_and_proba = pred_and_proba.dropna(subset=["side"])
             size = self.bet_sizer.transform(pred_and_proba)
 
         else:
-- 
2.43.0


From cee59e2455f3181c940589f8b4cccf29c73576be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 23/34] fix: SADF accepts the documented list of lags

---
 mizarlabs/structural_breaks/sadf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index 6385be4..ed748e9 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -50,8 +50,9 @@ class SupremumAugmentedDickeyFullerStatTest:
         phi: float,
     ):
         assert 0 <= phi <= 1, f"Expected phi to be between 0 and 1, got {phi}."
+        max_lag = lags if isinstance(lags, int) else max(lags)
         assert (
-            min_length > lags
+            min_length > max_lag
         ), f"min_length {min_length} should be higher than lags {lags}."
         self.model = model
         self.lags = lags
-- 
2.43.0


From 686243e4aad5db73ebf0d4e3b7d5cf0b4556a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 24/34] fix: fit_transform of a feature union passes the
 targets to its transformers

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 10cb736..b301093 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -27,7 +27,7 @@ from mizarlabs.transformers.utils import check_missing_columns
 
 class MizarFeatureUnion(FeatureUnion):
     def fit_transform(self, X, y=None, **fit_params):
-        Xs = super().fit_transform(X, y=None, **fit_params)
+        Xs = super().fit_transform(X, y=y, **fit_params)
 
         return pd.DataFrame(Xs, index=X.index)
 
-- 
2.43.0


From 23d65d306935226de860b5172e1e9d0fff9ccf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 25/34] fix: rolling z-score and local maximum features can be
 fitted in a pipeline

---
 mizarlabs/transformers/features/custom.py          | 3 +++
 mizarlabs/transformers/features/rolling_z_score.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mizarlabs/transformers/features/custom.py b/mizarlabs/transformers/features/custom.py
index 104cb04..ee16911 100644
--- a/mizarlabs/transformers/features/custom.py
+++ b/mizarlabs/transformers/features/custom.py
@@ -7,6 +7,9 @@ class LocalMaxToCloseRatio(BaseEstimator, TransformerMixin):
     def __init__(self, window):
         self.window = window
 
+    def fit(self, X: pd.DataFrame, y: pd.Series = None):
+        return self
+
     def transform(self, X: pd.DataFrame) -> pd.Series:
         return (X.high.rolling(window=self.window).max() / X.close).values.reshape(
             -1, 1
diff --git a/mizarlabs/transformers/features/rolling_z_score.py b/mizarlabs/transformers/features/rolling_z_score.py
index 276c733..8b1f349 100644
--- a/mizarlabs/transformers/features/rolling_z_score.py
+++ b/mizarlabs/transformers/features/rolling_z_score.py
@@ -18,6 +18,9 @@ class RollingZScoreTransformer(BaseEstimator, TransformerMixin):
         self.window = window
         self.to_series_func = to_series_func
 
+    def fit(self, X: pd.DataFrame, y: pd.Series = None):
+        return self
+
     def transform(self, X: pd.DataFrame) -> pd.Series:
         """Transform dataframe into rolling z score.
 
-- 
2.43.0


From f68e9d2faffce23aa943b20f0497e55dc9b456d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 26/34] fix: SADF without lagged differences

---
 mizarlabs/structural_breaks/sadf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index ed748e9..3d966b4 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -50,7 +50,7 @@ class SupremumAugmentedDickeyFullerStatTest:
         phi: float,
     ):
         assert 0 <= phi <= 1, f"Expected phi to be between 0 and 1, got {phi}."
-        max_lag = lags if isinstance(lags, int) else max(lags)
+        max_lag = lags if isinstance(lags, int) else max(lags, default=0)
         assert (
             min_length > max_lag
         ), f"min_length {min_length} should be higher than lags {lags}."
@@ -254,7 +254,7 @@ def _lag_df(df: pd.DataFrame, lags: Union[int, list]) -> pd.DataFrame:
     :return: dataframe with features and lagged differenced y features
     :rtype: pd.DataFrame
     """
-    df_lagged = pd.DataFrame()
+    df_lagged = pd.DataFrame(index=df.index)
     if isinstance(lags, int):
         lags = range(1, lags + 1)
     else:
-- 
2.43.0


From c0f1eb6a0b23106fa74c530de7e741ad0f871d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 27/34] fix: triple barrier labels with another side column
 name

A side column not called 'side' raised (missing column).
---
 mizarlabs/transformers/targets/labeling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index ab94a99..760fce4 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -167,10 +167,10 @@ class TripleBarrierMethodLabeling(BaseLabeling):
             else 1
         )
 
-        if SIDE not in y.columns:
-            barriers_info_df[self.side_column_name] = 1
+        if self.side_column_name not in y.columns:
+            barriers_info_df[SIDE] = 1
         else:
-            barriers_info_df[self.side_column_name] = y[self.side_column_name]
+            barriers_info_df[SIDE] = y[self.side_column_name]
 
         barriers_df = triple_barrier_labeling(
             close=y[self.close_column_name],
-- 
2.43.0


From 2f1e4b9157a005f940a14673a70c06d9860b4409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 28/34] fix: averaged bet sizes with another bet size column
 name

A bet_size_column_name other than the default raised (KeyError).
---
 mizarlabs/transformers/trading/bet_sizing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 415aa85..1f020d0 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -123,9 +123,9 @@ class BetSizingFromProbabilities(BetSizingBase):
             bet_sizing_signal *= X.loc[bet_sizing_signal.index, self._side_column_name]
 
         if self._average_active:
-            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(BET_SIZE).join(
-                X[[self._event_end_time_column_name]], how="left"
-            )
+            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(
+                self._bet_size_column_name
+            ).join(X[[self._event_end_time_column_name]], how="left")
 
             bet_sizing_signal = avg_active_signals(
                 bet_sizing_signal_with_barrier,
-- 
2.43.0


From 4cb1bdfb8607a0f9477597908459d5ba7b008f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 29/34] fix: strategy bars without a stop loss or profit taking
 factor

The factors are optional (and None by default), but creating positions
without one raised a TypeError.
---
 mizarlabs/model/pipeline.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index b301093..e9cafa2 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -820,9 +820,17 @@ class StrategyTrader:
             else 1
         )
 
-        # adding stop loss and profit taking
-        strategy_bars_df[STOP_LOSS] = volatility * self.stop_loss_factor
-        strategy_bars_df[PROFIT_TAKING] = volatility * self.profit_taking_factor
+        # adding stop loss and profit taking, without a factor there is none
+        strategy_bars_df[STOP_LOSS] = (
+            np.nan
+            if self.stop_loss_factor is None
+            else volatility * self.stop_loss_factor
+        )
+        strategy_bars_df[PROFIT_TAKING] = (
+            np.nan
+            if self.profit_taking_factor is None
+            else volatility * self.profit_taking_factor
+        )
 
         # adding number of expiration bars
         strategy_bars_df[NUMBER_EXPIRATION_BARS_COLUMN] = self.num_expiration_bars
-- 
2.43.0


From 01954925208a412e6e6cb13cda9f14f9a123a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 30/34] fix: trend scanning accepts the documented lists of
 timestamps

Events given as pd.Timestamps (or a DatetimeIndex) were taken as unknown.
---
 .../transformers/targets/trend_scanning.py    | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index fc55240..7ef6372 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -64,12 +64,14 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         assert isinstance(
             input_series, pd.Series
         ), "Please provide only a Pandas series with close prices with datetime indices."
-        if self.t_events is not None:
-            assert set(input_series.index.values).issuperset(set(self.t_events)), (
-                f"The following time indices are in t_events but "
-                f"not in the provided series "
-                f"{set(input_series.index.values) - set(self.t_events)}"
-            )
+        unknown_events = self._get_events(input_series.index).difference(
+            input_series.index
+        )
+        assert unknown_events.empty, (
+            f"The following time indices are in t_events but "
+            f"not in the provided series "
+            f"{set(unknown_events)}"
+        )
 
     def _check_output(self, output_df: pd.DataFrame):
         required_columns = [EVENT_END_TIME, T_VALUE, RETURN, LABEL]
@@ -78,9 +80,15 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
         if self.t_events is not None:
-            assert set(self.t_events) == set(
-                output_df.index.values
-            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+            missing_events = self._get_events(output_df.index).difference(
+                output_df.index
+            )
+            assert (
+                missing_events.empty
+            ), f"Missing following time indices in output DataFrame: {set(missing_events)}"
+
+    def _get_events(self, index: pd.Index) -> pd.Index:
+        return pd.Index(index.values if self.t_events is None else self.t_events)
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
@@ -118,7 +126,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        t_events = y.index.values if self.t_events is None else self.t_events
+        t_events = self._get_events(y.index)
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
-- 
2.43.0


From 37b6634a87b4aba16a1d2c26c93e3f4354ffd570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 31/34] fix: trend labels of series with a time zone

None of their times were found, so that no event got a label.
---
 mizarlabs/transformers/targets/trend_scanning.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 7ef6372..5fba26a 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -88,7 +88,15 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             ), f"Missing following time indices in output DataFrame: {set(missing_events)}"
 
     def _get_events(self, index: pd.Index) -> pd.Index:
-        return pd.Index(index.values if self.t_events is None else self.t_events)
+        events = pd.Index(index.values if self.t_events is None else self.t_events)
+        if (
+            getattr(index, "tz", None) is not None
+            and isinstance(events, pd.DatetimeIndex)
+            and events.tz is None
+        ):
+            # numpy has no time zones, its times are UTC
+            events = events.tz_localize("UTC").tz_convert(index.tz)
+        return events
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
-- 
2.43.0


From ba995244fb01ff1b112cf7a2b93aa29b0ed609d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 32/34] fix: moving average and MACD features can be cloned and
 searched over

Parameters kept under other names than those of the constructor can be
neither read, printed, cloned nor set.
---
 mizarlabs/transformers/technical/macd.py      | 34 +++++++++++--------
 .../transformers/technical/moving_average.py  | 31 +++++++++++------
 2 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/mizarlabs/transformers/technical/macd.py b/mizarlabs/transformers/technical/macd.py
index ce6cdb2..e3a13a0 100644
--- a/mizarlabs/transformers/technical/macd.py
+++ b/mizarlabs/transformers/technical/macd.py
@@ -16,25 +16,31 @@ class MACDHistogramCrossOver(BaseEstimator, TransformerMixin):
 
         if fast_period > slow_period:
             raise ValueError("Fast should be smaller than slow")
-        self.fast_period_ = fast_period
-        self.slow_period_ = slow_period
-        self.signal_period_ = signal_period
+        self.fast_period = fast_period
+        self.slow_period = slow_period
+        self.signal_period = signal_period
         self.column_name = column_name
-        self.transformer_ = TAFactory().create_transformer(
-            "MACD",
-            self.column_name,
-            kw_args={
-                "fastperiod": fast_period,
-                "slowperiod": slow_period,
-                "signalperiod": signal_period,
-            },
-        )
+
+    def __setstate__(self, state):
+        # transformers saved by versions that kept the parameters as fast_period_ etc.
+        for name in ("fast_period", "slow_period", "signal_period"):
+            if f"{name}_" in state:
+                state[name] = state.pop(f"{name}_")
+        super().__setstate__(state)
 
     def fit(self, X, y=None, **fit_params):
         return self
 
     def transform(self, X: pd.DataFrame):
-
-        macd_df = pd.DataFrame(self.transformer_.transform(X))
+        transformer = TAFactory().create_transformer(
+            "MACD",
+            self.column_name,
+            kw_args={
+                "fastperiod": self.fast_period,
+                "slowperiod": self.slow_period,
+                "signalperiod": self.signal_period,
+            },
+        )
+        macd_df = pd.DataFrame(transformer.transform(X))
 
         return np.sign(macd_df[2]).diff().values.reshape(-1, 1) / 2
diff --git a/mizarlabs/transformers/technical/moving_average.py b/mizarlabs/transformers/technical/moving_average.py
index e4084ee..71a42cb 100644
--- a/mizarlabs/transformers/technical/moving_average.py
+++ b/mizarlabs/transformers/technical/moving_average.py
@@ -4,7 +4,18 @@ from sklearn.base import BaseEstimator
 from sklearn.base import TransformerMixin
 
 
-class MovingAverageCrossOver(BaseEstimator, TransformerMixin):
+class BaseMovingAverages(BaseEstimator, TransformerMixin):
+    """Base class for transformers with a fast and a slow moving average."""
+
+    def __setstate__(self, state):
+        # transformers saved by versions that kept the parameters as fast_ and slow_
+        for name in ("fast", "slow"):
+            if f"{name}_" in state:
+                state[name] = state.pop(f"{name}_")
+        super().__setstate__(state)
+
+
+class MovingAverageCrossOver(BaseMovingAverages):
     """
     Moving average crossover transformer
 
@@ -41,8 +52,8 @@ class MovingAverageCrossOver(BaseEstimator, TransformerMixin):
 
         if fast > slow:
             raise ValueError("Fast should be smaller than slow")
-        self.fast_ = fast
-        self.slow_ = slow
+        self.fast = fast
+        self.slow = slow
         self.column_name = column_name
         self.fill_between_crossovers = fill_between_crossovers
 
@@ -50,8 +61,8 @@ class MovingAverageCrossOver(BaseEstimator, TransformerMixin):
         return self
 
     def transform(self, X: pd.DataFrame):
-        fast_moving_average = X[self.column_name].rolling(window=self.fast_).mean()
-        slow_moving_average = X[self.column_name].rolling(window=self.slow_).mean()
+        fast_moving_average = X[self.column_name].rolling(window=self.fast).mean()
+        slow_moving_average = X[self.column_name].rolling(window=self.slow).mean()
 
         # filling the zeros with nan so that we can forward fill the nans
         # with the previous crossover value
@@ -112,7 +123,7 @@ class MovingAverageCrossOverPredictor(MovingAverageCrossOver):
         return probabilities
 
 
-class ExponentialWeightedMovingAverageDifference:
+class ExponentialWeightedMovingAverageDifference(BaseMovingAverages):
     def __init__(
         self,
         fast: int,
@@ -123,8 +134,8 @@ class ExponentialWeightedMovingAverageDifference:
 
         if fast > slow:
             raise ValueError("Fast should be smaller than slow")
-        self.fast_ = fast
-        self.slow_ = slow
+        self.fast = fast
+        self.slow = slow
         self.normalised = normalised
         self.column_name = column_name
 
@@ -132,8 +143,8 @@ class ExponentialWeightedMovingAverageDifference:
         return self
 
     def transform(self, X: pd.DataFrame) -> np.ndarray:
-        fast_ewma = X[self.column_name].ewm(span=self.fast_).mean()
-        slow_ewma = X[self.column_name].ewm(span=self.slow_).mean()
+        fast_ewma = X[self.column_name].ewm(span=self.fast).mean()
+        slow_ewma = X[self.column_name].ewm(span=self.slow).mean()
 
         ewma_difference = fast_ewma - slow_ewma
 
-- 
2.43.0


From 66d72658e0eb2ce949386814932eea2ff4c2f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 33/34] fix: an ensemble trains with the samples and bars set
 after its construction

The indicator matrix and the positions of the samples were those of the
constructor's arguments, so set_params (and searches) over the samples or bars
had no effect, or used the columns of other samples.
---
 .../model/sequentially_bootstrapped_bagging_classifier.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index d533f4a..457bb8b 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -340,6 +340,12 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
         random_state = check_random_state(self.random_state)
         self.X_time_index = X.index  # Remember X index for future sampling
 
+        # The samples and bars may have been set after the construction
+        self._ind_mat = None
+        self.timestamp_int_index_mapping = pd.Series(
+            index=self.samples_info_sets.index, data=range(self.ind_mat.shape[1])
+        )
+
         assert set(self.timestamp_int_index_mapping.index).issuperset(
             set(self.X_time_index)
         ), "The ind matrix timestamps should have all the timestamps in the training data"
-- 
2.43.0


From def763508ce390735a9b88a090f6fd46aa3a8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 34/34] fix: any classifier can be the primary model of a
 strategy with metalabeling

Pipelines (also MizarPipeline), searches and linear models have no n_classes_.
---
 mizarlabs/model/pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index e9cafa2..62eca5b 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -413,12 +413,14 @@ class StrategySignalPipeline:
             )
         # add primary model predict proba values for metalabel model as features
         if self.metalabeling_use_proba_primary_model:
+            primary_proba = self.primary_model.predict_proba(X_primary_aligned)
+            # not every model (e.g. a pipeline) knows its number of classes
             X_primary_proba_features = pd.DataFrame(
-                self.primary_model.predict_proba(X_primary_aligned),
+                primary_proba,
                 index=X_primary_aligned.index,
                 columns=[
                     f"primary_side_pred_proba_{i}"
-                    for i in range(self.primary_model.n_classes_)
+                    for i in range(primary_proba.shape[1])
                 ],
             )
             # to avoid the creation of unwanted nans the join between the the
-- 
2.43.0

