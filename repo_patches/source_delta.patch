From c4cc81dda7393e90166d8237a7f6919d05d2c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 01/41] fix: Greenwell method crashed when a feature is
 constant in the data

---
 .../partial_dependence_based/_greenwell.py            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
index 9468a40..0b5d99b 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
@@ -80,9 +80,9 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         for pair in self.pairs:
             pair = self.pd_calculator._get_pair_key((pair[0], pair[1]))
             pd_values = self.pd_calculator.get_pd_pairs(pair[0], pair[1])
-            res_j = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
+            res_j = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
                                                                       is_numerical=pair[1] in num_features))
-            res_i = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
+            res_i = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
                                                                       is_numerical=pair[0] in num_features))
             value_pairs.append([pair[0], pair[1], (res_j + res_i) / 2])
         return pd.DataFrame(value_pairs, columns=["Feature 1", "Feature 2", self.method]).sort_values(
@@ -90,5 +90,10 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         ).fillna(0)
 
 
+def _stdev(values: np.ndarray):
+    """Sample standard deviation, 0 for a single value (i.e. for a feature that is constant in the data)."""
+    return stdev(values) if len(values) > 1 else 0.0
+
+
 def _calc_conditional_imp(pd_values: np.ndarray, is_numerical: bool):
-    return stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+    return _stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
-- 
2.43.0


From cec7118f11397fa030383c546be25e0b08e036aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 02/41] fix: H-statistic of features ignored by the model was
 rounding noise divided by itself

---
 artemis/_utilities/ops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..a807877 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -38,7 +38,10 @@ def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
 
 
 def center(x: np.array):
-    return x - np.mean(x)
+    centered = x - np.mean(x)
+    # deviations within the rounding error of the mean are not distinguishable from zero
+    rounding_error = len(x) * np.finfo(float).eps * np.max(np.abs(x))
+    return np.where(np.abs(centered) <= rounding_error, 0, centered)
 
 
 def partial_dependence_value(df: pd.DataFrame, change_dict: Dict, predict_function: Callable, model) -> ndarray:
-- 
2.43.0


From 4ce1238eaf3028aef415b958cf63350b95dbe150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 03/41] fix: permutation importance did not accept the
 documented default features=None

---
 .../model_agnostic/_permutational_importance.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..87deb10 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -74,6 +75,7 @@ class PermutationImportance(FeatureImportanceMethod):
         pd.DataFrame
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
+        features = all_if_none(X.columns, features)
         self.feature_importance = _permutation_importance(
             model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
         )
-- 
2.43.0


From 4aa5a9a0031af651384c5453638361dd4bf2b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 04/41] fix: feature importance of SejongOhMethod ignored
 random_state

---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From 78f232c47dda6af81f6a61ea328e990d94e45626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 05/41] fix: sampled targets did not match sampled rows unless
 X had a default index

---
 artemis/_utilities/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index a807877..9088343 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,9 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        positions = pd.Series(np.arange(len(X))).sample(n, random_state=random_generator).values
+        y_sampled = y.iloc[positions] if isinstance(y, pd.Series) else np.asarray(y)[positions]
+        return X.iloc[positions], y_sampled
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From d9a5bc2df0ab998cc702f9475f640f82e5ab839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 06/41] fix: PartialDependenceVisualizer passed an argument
 scikit-learn does not have

---
 artemis/visualizer/_pdp_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_pdp_visualizer.py b/artemis/visualizer/_pdp_visualizer.py
index 50d9ce1..4c59a4c 100644
--- a/artemis/visualizer/_pdp_visualizer.py
+++ b/artemis/visualizer/_pdp_visualizer.py
@@ -58,6 +58,6 @@ class PartialDependenceVisualizer:
                                                 self.X,
                                                 features,
                                                 grid_resolution=grid_resolution,
-                                                _ax=ax,
+                                                ax=ax,
                                                 **kwargs)
         ax.set_title(title)
-- 
2.43.0


From 009b219a756a5fe544cc2b0226f16f57e5a9a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 07/41] fix: SplitScoreMethod crashed on models without
 consecutive splits

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..ab3ad58 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -206,7 +206,7 @@ def _calculate_full_result(
         .progress_apply(_prepare_stats, package=model_package)
         .reset_index(drop=True)
     )
-    return full_result[_COLUMNS_TO_CHOSE]
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From c0c8fcb4de154b2f389b17e240a265b3afb1d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 08/41] fix: conditional minimal depth merged pairs whose
 concatenated names coincide

---
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..3a14e74 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From c8dba4193831534d5f6f07d4333d7a0daff6488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 09/41] fix: minimal depth importance crashed on a forest
 without splits

---
 artemis/importance_methods/model_specific/_minimal_depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_minimal_depth.py b/artemis/importance_methods/model_specific/_minimal_depth.py
index f6911ea..6d08714 100644
--- a/artemis/importance_methods/model_specific/_minimal_depth.py
+++ b/artemis/importance_methods/model_specific/_minimal_depth.py
@@ -70,7 +70,7 @@ class MinimalDepthImportance(FeatureImportanceMethod):
             )
 
         self.feature_importance = pd.DataFrame.from_records(
-            records_result
+            records_result, columns=["Feature", "Importance"]
         ).sort_values(by="Importance", ignore_index=True)
 
         return self.feature_importance
-- 
2.43.0


From 600c1f3543e9afbf08f7aa190514845bef5f0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 10/41] fix: conditional minimal depth was wrong for forests
 grown with max_leaf_nodes

---
 .../_conditional_minimal_depth.py             | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 3a14e74..b7af6b5 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -233,12 +233,23 @@ def _bfs(tree: pd.DataFrame):
 
 
 def _tree_representation(decision_tree_object):
-    """Efficient, sklearn-like table tree representation. Row = node in the tree."""
+    """
+    Efficient, sklearn-like table tree representation. Row = node in the tree.
+    Nodes are numbered depth-first, which is not the order used by sklearn for trees grown with `max_leaf_nodes`.
+    """
+    left, right = decision_tree_object.children_left, decision_tree_object.children_right
+    order, stack = [], [0]
+    while stack:
+        node = stack.pop()
+        order.append(node)
+        if left[node] >= 0:
+            stack.extend([right[node], left[node]])
+    new_id = np.argsort(order)
     return pd.DataFrame({
-        "id": range(decision_tree_object.node_count),
-        "left_child": decision_tree_object.children_left,
-        "right_child": decision_tree_object.children_right,
-        "split_variable": decision_tree_object.feature,
+        "id": range(len(order)),
+        "left_child": np.where(left[order] >= 0, new_id[left[order]], -1),
+        "right_child": np.where(right[order] >= 0, new_id[right[order]], -1),
+        "split_variable": decision_tree_object.feature[order],
     })
 
 
-- 
2.43.0


From 3271df877839241f143c26994270fe0f214b40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 11/41] fix: graph and heatmap crashed when some features have
 no interaction or importance

---
 .../random_forest/_conditional_minimal_depth.py             | 3 ++-
 artemis/visualizer/_visualizer.py                           | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index b7af6b5..acb73d1 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -161,7 +161,8 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
 
-        self.visualizer.plot(self.ovo,
+        # pairs that never occur in one tree have no value to show
+        self.visualizer.plot(self.ovo.dropna(subset=[self.method]),
                              vis_type,
                              _feature_column_name_1="root_variable",
                              _feature_column_name_2="variable",
diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..cdf9ac1 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -290,12 +290,10 @@ class Visualizer:
             ax=ax,
             width=[G[u][v][self.method] for u, v in G.edges()],
             with_labels=True,
-            nodelist=list(feature_importance["Feature"])
-            if feature_importance is not None
-            else None,
+            nodelist=list(G.nodes),
             node_size=[
                 node_size * val / np.max(feature_importance["Importance"])
-                for val in feature_importance["Importance"]
+                for val in feature_importance.set_index("Feature")["Importance"][list(G.nodes)]
             ]
             if feature_importance is not None
             else node_size,
-- 
2.43.0


From e94045c49fdb8436b9a1a257d84c242beee1dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 12/41] fix: comparator correlated alphabetical codes of pairs
 instead of their ranks

---
 artemis/comparison/_method_comparator.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..9131172 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -176,12 +176,17 @@ class FeatureInteractionMethodComparator:
 
 
 def _rank_interaction_values_encoded(method1, method2):
-    rank_features_m1 = method1._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_m2 = method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_encoded = pd.concat(
-        [rank_features_m1.astype('category').cat.codes, rank_features_m2.astype('category').cat.codes], axis=1)
+    """Ranks of pairs of features that are scored by both methods, 1 denotes the strongest interaction."""
+    return pd.concat([_pair_strengths(method1), _pair_strengths(method2)], axis=1).dropna().rank(ascending=False)
 
-    return rank_features_encoded
+
+def _pair_strengths(method):
+    """Interaction strength of each (unordered) pair of features, the greater the stronger."""
+    ovo = method._compare_ovo
+    pairs = ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
+    values = ovo[method.method].astype(float)
+
+    return (-values if method._interactions_ascending_order else values).groupby(pairs).max()
 
 
 def _title_x_y(ax, m1_name, m2_name):
@@ -234,4 +239,4 @@ def _suitable_for_ovo(method: FeatureInteractionMethod):
 def _alphabetical_order_pair(row):
     features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
 
-    return "-".join(features_alphabetical)
+    return tuple(features_alphabetical)
-- 
2.43.0


From e1da115a3b4aa12c87af4abf837ba91a71b28f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 13/41] fix: comparison plot showed correlations of previously
 compared methods

---
 artemis/comparison/_method_comparator.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 9131172..5dc8d55 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -138,11 +138,7 @@ class FeatureInteractionMethodComparator:
 
         if add_correlation_box:
 
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
-
-            _add_correlation_box(ax, corr)
+            _add_correlation_box(ax, self.correlations(method1, method2))
 
         _title_x_y(ax, m1_name, m2_name)
 
-- 
2.43.0


From 72d2a32564b4cbd3fd211546655491e84a83fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 14/41] fix: comparison plot crashed on pairs scored by only
 one of the methods

---
 artemis/comparison/_method_comparator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 5dc8d55..c05beeb 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -119,7 +119,10 @@ class FeatureInteractionMethodComparator:
         circle_r = 0.2 * min(max(method1._compare_ovo[m1_name]), max(method2._compare_ovo[m2_name]))
 
         x, y = [], []
+        pairs_m2 = set(method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1))
         for index, row in method1._compare_ovo.iterrows():
+            if _alphabetical_order_pair(row) not in pairs_m2:
+                continue
 
             f1, f2 = row["Feature 1"], row["Feature 2"]
             x_curr, y_curr = row[method1.method], method2.interaction_value(f1, f2)
-- 
2.43.0


From d986e80b5eb29971b62b0be8c8d1534fce99b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 15/41] fix: H-statistic kept stale one vs all values or
 refused to plot after fit(calculate_ova=False)

---
 .../partial_dependence_based/_friedman_h_statistic.py        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..af47695 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -105,8 +105,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             If True, one vs all interactions will be calculated. Default is True.
         """
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
-            self.ova = self._calculate_ova_interactions_from_pd(show_progress)
+        self.ova = self._calculate_ova_interactions_from_pd(show_progress) if calculate_ova else None
 
     def plot(self,
              vis_type: str = VisualizationType.HEATMAP,
@@ -176,7 +175,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (self.ova is None and vis_type == VisualizationType.BAR_CHART_OVA):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From bb682de54d911bd7bb1a2128e4d573a8bb031265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 16/41] fix: split score importance listed the least important
 features first for depth metrics

---
 artemis/importance_methods/model_specific/_split_score.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..0e85446 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -72,11 +72,11 @@ class SplitScoreImportance(FeatureImportanceMethod):
 
         if trees_df["depth"].isnull().values.any():
             trees_df = _calculate_depth(trees_df, show_progress)
+        self.selected_metric = selected_metric
         self.full_result = _calculate_all_feature_importance(
             trees_df, features, selected_metric
         )
-        self.feature_importance = _select_metric(self.full_result, selected_metric)
-        self.selected_metric = selected_metric
+        self.feature_importance = _select_metric(self.full_result, selected_metric, self.importance_ascending_order)
 
         return self.feature_importance
 
@@ -141,12 +141,12 @@ def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
     )
 
 
-def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
+def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str, ascending_order: bool = False):
     feature_importance = importance_full_result[
         ["split_feature", selected_metric]
     ].rename(columns={"split_feature": "Feature", selected_metric: "Importance"})
     return feature_importance.sort_values(
-        by="Importance", ascending=False, ignore_index=True
+        by="Importance", ascending=ascending_order, ignore_index=True
     )
 
 
-- 
2.43.0


From 57ab449e33f19676fd0bbce9bdc816389cfa0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 17/41] fix: title was ignored in one vs all bar chart

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index cdf9ac1..e194df1 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -69,7 +69,7 @@ class Visualizer:
                 **kwargs,
             )
         elif vis_type == VisualizationType.BAR_CHART_OVA:
-            self.plot_barchart_ova(ova, figsize=figsize, **kwargs)
+            self.plot_barchart_ova(ova, title=title, figsize=figsize, **kwargs)
         elif vis_type == VisualizationType.HEATMAP:
             self.plot_heatmap(
                 ovo,
-- 
2.43.0


From 6a09ce843a82566ce315c1088857cb2b3be3f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 18/41] fix: summary drew its panels as if greater always meant
 stronger

---
 artemis/visualizer/_visualizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e194df1..29e7b94 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -51,6 +51,7 @@ class Visualizer:
                 title=title,
                 figsize=figsize,
                 interactions_ascending_order=interactions_ascending_order,
+                importance_ascending_order=importance_ascending_order,
                 _f1_name=_feature_column_name_1,
                 _f2_name=_feature_column_name_2,
                 _directed=_directed,
@@ -403,6 +404,7 @@ class Visualizer:
             title: str = "default",
             figsize: Tuple[float, float] = (8, 6),
             interactions_ascending_order: bool = False,
+            importance_ascending_order: bool = False,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
             _directed: bool = False,
@@ -423,6 +425,7 @@ class Visualizer:
             ovo,
             feature_importance,
             interactions_ascending_order=interactions_ascending_order,
+            importance_ascending_order=importance_ascending_order,
             ax=ax1,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
@@ -432,6 +435,7 @@ class Visualizer:
         self.plot_interaction_graph(
             ovo,
             feature_importance,
+            interactions_ascending_order=interactions_ascending_order,
             ax=ax2,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
-- 
2.43.0


From 2969bf35f92ba9d6d3c57c022f30ae6565bac069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 19/41] fix: summary ignored the documented bar_chart
 parameters

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 29e7b94..e30db45 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -418,7 +418,7 @@ class Visualizer:
 
         heatmap_kwargs = kwargs.pop("heatmap", None)
         graph_kwargs = kwargs.pop("graph", None)
-        bar_char_ovo_kwargs = kwargs.pop("bar_chart_ovo", None)
+        bar_char_ovo_kwargs = kwargs.pop("bar_chart", kwargs.pop("bar_chart_ovo", None))
         bar_char_ova_kwargs = kwargs.pop("bar_chart_ova", None)
 
         self.plot_heatmap(
-- 
2.43.0


From 2c3284384abb720b52c53038f37d9f4c9b018e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 20/41] fix: zenplot crashed when zenpath_length was not
 smaller than the number of pairs

---
 .../model_agnostic/partial_dependence_based/_pdp.py      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..36d8996 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -198,6 +198,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         - https://www.jstatsoft.org/article/view/v095i04
         """
         fig = plt.figure(figsize=figsize)
+        zenpath_length = min(zenpath_length, len(self.ovo))
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
         pair = to_vis.iloc[0]["Feature 1"], to_vis.iloc[0]["Feature 2"]
@@ -274,7 +275,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 ax.set_title(pair[0], size=10)
                 id_col += 1
 
-            idx, continued = find_next_pair_index(to_vis, pair[1])
+            idx, continued = find_next_pair_index(to_vis, pair[1]) if len(to_vis) > 0 else (None, False)
             if continued:
                 pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
                 if zenpath_length - 1 == i:
@@ -287,9 +288,11 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                     ax.set_ylabel(pair[1])
                 else:
                     ax.set_title(pair[1], size=10)
-                pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
+                if idx is not None:
+                    pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
 
-            to_vis = to_vis.drop(idx)
+            if idx is not None:
+                to_vis = to_vis.drop(idx)
 
             plt.tight_layout()
         cbar_ax = fig.add_axes([1, 0.25, 0.05, 0.5])
-- 
2.43.0


From 73c5b44560542ac0514ec8ea6ba1d5ce96c63766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 21/41] fix: zenplot colours did not span the plotted partial
 dependence values

---
 artemis/_utilities/zenplot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/artemis/_utilities/zenplot.py b/artemis/_utilities/zenplot.py
index 1be7bde..df5308a 100644
--- a/artemis/_utilities/zenplot.py
+++ b/artemis/_utilities/zenplot.py
@@ -27,12 +27,12 @@ def get_pd_pairs_values(method, pair):
 
 
 def get_pd_dict(pd_calculator, to_vis):
-    max_pd = 0
-    min_pd = 1
+    max_pd = -np.inf
+    min_pd = np.inf
     for i in range(len(to_vis)):
         pair = (to_vis.iloc[i, 0], to_vis.iloc[i, 1])
         pair_key = pd_calculator._get_pair_key(pair)
         pair_values = pd_calculator.pd_pairs[pair_key].copy()
-        max_pd = max(np.max(pair_values["pd_values"]), max_pd)
-        min_pd = min(np.min(pair_values["pd_values"]), min_pd)
+        max_pd = max(np.nanmax(pair_values["pd_values"]), max_pd)
+        min_pd = min(np.nanmin(pair_values["pd_values"]), min_pd)
     return min_pd, max_pd
-- 
2.43.0


From fe12b47e0a1672baf7563c88436ba42d40224e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 22/41] fix: heatmap diagonal showed same-feature splits
 instead of feature importance

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e30db45..5848a69 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -189,7 +189,7 @@ class Visualizer:
             var_imp_diag = self._feature_importance_diag(
                 ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([ovo_all_pairs, var_imp_diag])
+            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs])
 
         fig = None
         if ax is not None:
-- 
2.43.0


From 8460aef907b00fb097ea5a5de1634e5b04f71d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 23/41] fix: split score importance of requested features
 crashed on unused ones and rescaled root frequencies

---
 artemis/importance_methods/model_specific/_split_score.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 0e85446..f661d7c 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -91,10 +91,7 @@ def _calculate_all_feature_importance(
         features: Optional[List[str]] = None,
         selected_metric: str = SplitScoreImportanceMetric.SUM_GAIN,
 ):
-    if features is not None:
-        trees_df = trees_df.loc[trees_df["split_feature"].isin(features)]
-    else:
-        trees_df = trees_df.loc[trees_df["split_feature"] != "Leaf"]
+    trees_df = trees_df.loc[trees_df["split_feature"] != "Leaf"]
 
     basic_metrics = _calculate_basic_metrics(trees_df)
     root_metrics = _calculate_root_metrics(trees_df)
@@ -104,6 +101,8 @@ def _calculate_all_feature_importance(
     importance_full_result = pd.concat(
         [importance_full_result, mean_weighted_depth], axis=1
     ).reset_index()
+    if features is not None:
+        importance_full_result = importance_full_result.loc[importance_full_result["split_feature"].isin(features)]
 
     return importance_full_result.sort_values(selected_metric, ascending=False)
 
-- 
2.43.0


From e2af29dc5b2d7583e8a71e258be650fd85f4137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:43 +0000
Subject: [PATCH 24/41] fix: SplitScoreMethod crashed on models without any
 split

---
 .../importance_methods/model_specific/_split_score.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f661d7c..5bc053e 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -132,12 +132,11 @@ def _calculate_root_metrics(trees_df: pd.DataFrame):
 
 
 def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
-    return pd.Series(
-        trees_df.groupby("split_feature").apply(
-            lambda x: np.average(x.depth, weights=x.gain)
-        ),
-        name="mean_weighted_depth",
-    )
+    # groupby.apply does not return a series when there are no groups, i.e. for a model without splits
+    weighted_depth = trees_df["depth"].astype(float) * trees_df["gain"].astype(float)
+    grouped_weighted_depth = weighted_depth.groupby(trees_df["split_feature"])
+    grouped_gain = trees_df["gain"].astype(float).groupby(trees_df["split_feature"])
+    return (grouped_weighted_depth.sum() / grouped_gain.sum()).rename("mean_weighted_depth")
 
 
 def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str, ascending_order: bool = False):
-- 
2.43.0


From 7f722d7885986d479d2d8d05d4c344bf02ad6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:34 +0000
Subject: [PATCH 25/41] fix: a rejected metric changed the ranking direction of
 earlier split score results

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index ab3ad58..b34e369 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -87,8 +87,8 @@ class SplitScoreMethod(FeatureInteractionMethod):
         """
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
-        self.metric = interaction_selected_metric
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
+        self.metric = interaction_selected_metric
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
         )
-- 
2.43.0


From d291ea0cdf3208971edc61b4c1a4a213721515ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:34 +0000
Subject: [PATCH 26/41] fix: profile plots and zenplots of unfitted methods
 failed with unrelated errors

---
 .../model_agnostic/partial_dependence_based/_pdp.py        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 36d8996..4e71fe4 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -10,6 +10,7 @@ import seaborn as sns
 from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
 from artemis.interactions_methods._method import FeatureInteractionMethod
 from artemis._utilities.domain import ProgressInfoLog, VisualizationType
+from artemis._utilities.exceptions import MethodNotFittedException
 from artemis._utilities.ops import get_predict_function, sample_if_not_none, all_if_none
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from artemis._utilities.zenplot import (
@@ -132,6 +133,9 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         figsize : (float, float) 
             Size of plot. Default is (8, 6).
         """
+        if self.pd_calculator is None:
+            raise MethodNotFittedException(self.method)
+
         plt.figure(figsize=figsize)
         if feature2 is not None:
             pair_key = self.pd_calculator._get_pair_key((feature1, feature2))
@@ -197,6 +201,9 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         ----------
         - https://www.jstatsoft.org/article/view/v095i04
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
+
         fig = plt.figure(figsize=figsize)
         zenpath_length = min(zenpath_length, len(self.ovo))
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
-- 
2.43.0


From 708a7db6f8b0a1e44fa59d3f73ef1a762f8684f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 27/41] fix: bars of H-statistic summary were drawn weakest
 first

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 5848a69..d879fd3 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -363,7 +363,7 @@ class Visualizer:
             grid=True,
             ax=ax,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_barchart_ova(
             self,
@@ -394,7 +394,7 @@ class Visualizer:
             ax=ax,
             grid=True,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_summary(
             self,
-- 
2.43.0


From 7e961ec388818d8da8d3fa6c0de5bfe886c18cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 28/41] fix: heatmap diagonal showed same-feature splits where
 the importance is missing

---
 artemis/visualizer/_visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index d879fd3..8175863 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -189,7 +189,9 @@ class Visualizer:
             var_imp_diag = self._feature_importance_diag(
                 ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs])
+            # the diagonal is for importance only, also where it is missing
+            different = ovo_all_pairs[_f1_name] != ovo_all_pairs[_f2_name]
+            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs[different]])
 
         fig = None
         if ax is not None:
-- 
2.43.0


From 080130a33ad28c22c564e03876c26613680e5fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:11 +0000
Subject: [PATCH 29/41] fix: the end label of a zenplot named the feature of a
 pair that is not shown

---
 .../model_agnostic/partial_dependence_based/_pdp.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 4e71fe4..01188ca 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -287,9 +287,9 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
                 if zenpath_length - 1 == i:
                     if id_col > id_row:
-                        ax.set_ylabel(pair[1])
+                        ax.set_ylabel(pair[0])
                     else:
-                        ax.set_title(pair[1], size=10)
+                        ax.set_title(pair[0], size=10)
             else:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
-- 
2.43.0


From 239d0d75913b4e218cf2375e47117fa5c2ec459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:58 +0000
Subject: [PATCH 30/41] fix: lollipop plot left out the last tree and cut
 deeper nodes at other trees than roots

---
 artemis/visualizer/_visualizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 8175863..1ead9b2 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -499,8 +499,9 @@ class Visualizer:
         full_result_copy["pair_name"] = (
                 full_result_copy["parent_name"] + ":" + full_result_copy["split_feature"]
         )
+        n_trees = full_result_copy["tree"].max() + 1
         roots = full_result_copy.loc[full_result_copy["depth"] == 0].copy()
-        roots = roots[roots["tree"] < max_trees * roots["tree"].max()]
+        roots = roots[roots["tree"] < max_trees * n_trees]
         nodes = full_result_copy.loc[
             (full_result_copy["leaf"] == False)
             & (full_result_copy["depth"] > 0)
@@ -509,7 +510,7 @@ class Visualizer:
         nodes.loc[full_result_copy["interaction"] == True, "split_feature"] = nodes.loc[
             full_result_copy["interaction"] == True, "pair_name"
         ]
-        nodes = nodes[nodes["tree"] < max_trees * nodes["tree"].max()]
+        nodes = nodes[nodes["tree"] < max_trees * n_trees]
 
         ax.set_axisbelow(True)
         plt.xscale(scale)
-- 
2.43.0


From 0c5724118fe5b2beadef89a373b9d3fff0d059d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:58 +0000
Subject: [PATCH 31/41] fix: lollipop plot deeper than the list of colours
 failed

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 1ead9b2..f1ace76 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -525,8 +525,8 @@ class Visualizer:
                 nodes_to_plot["tree"] + 1,
                 nodes_to_plot["gain"],
                 label=nodes_to_plot["depth"],
-                color=colors[i],
-                marker=markers[i],
+                color=colors[i % len(colors)],
+                marker=markers[i % len(markers)],
             )
             if labels:
                 nodes_to_annotate = nodes_to_plot.loc[
-- 
2.43.0


From 782e3e524e3f29f5990912ea4e94eb393a73659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:49 +0000
Subject: [PATCH 32/41] fix: width of graph edges for equal interactions and
 for the strongest ones of ascending methods

---
 artemis/visualizer/_visualizer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index f1ace76..b894580 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -324,7 +324,7 @@ class Visualizer:
                                      max_width: float):
 
         # standardize edge widths by scaling interactions to [0,1] interval
-        self._scale_to_unit_interval(ovo_copy)
+        self._scale_to_unit_interval(interactions_ascending_order, ovo_copy)
 
         # a => (1 - a) for ascending order
         self._reverse_scale_for_ascending(interactions_ascending_order, ovo_copy)
@@ -605,21 +605,25 @@ class Visualizer:
                                            threshold_relevant_interaction: float,
                                            ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = 0
+            # zero denotes the strongest interaction here, so it can not stand for an insignificant one
+            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = np.nan
         else:
             ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = 0
 
         return ovo_copy.copy()
 
-    def _scale_to_unit_interval(self, ovo_copy: pd.DataFrame):
+    def _scale_to_unit_interval(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         vals = ovo_copy[self.method]
         m, M = np.min(vals), np.max(vals)
-        ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
+        if M > m:
+            ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
+        else:
+            # equal interactions can not be scaled, all of them are the strongest ones
+            ovo_copy.loc[:, self.method] = 0 * vals if interactions_ascending_order else np.sign(vals)
 
     def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > 0, self.method] = 1 - ovo_copy.loc[
-                ovo_copy[self.method] > 0, self.method]
+            ovo_copy[self.method] = (1 - ovo_copy[self.method]).fillna(0)
 
     def _map_to_width(self, max_width: float, ovo_copy: pd.DataFrame):
         ovo_copy[self.method] = ovo_copy[self.method] * max_width
-- 
2.43.0


From 0ed0079944777eae4aa519b5ec057567c678a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:49 +0000
Subject: [PATCH 33/41] fix: keep the cell types of rows in all-but-one partial
 dependence

---
 artemis/_utilities/pd_calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5192233..82fb9bf 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -120,7 +120,8 @@ class PartialDependenceCalculator:
         X_full = pd.DataFrame()
         for feature in tqdm(features, desc=desc, disable=not show_progress):
             if np.isnan(self.pd_minus_single[feature]["pd_values"]).any(): 
-                for i, row in self.X.copy().reset_index(drop=True).iterrows():
+                # rows as series (iterrows) would convert their cells to a common type
+                for i, row in enumerate(self.X.to_dict("records")):
                     change_dict = {other_feature: row[other_feature] for other_feature in self.X.columns if other_feature != feature}
                     X_changed = self.X.copy().assign(**change_dict)
                     range_dict[(feature, i)] = (current_len, current_len+self.X_len)
-- 
2.43.0


From 82243bf965bc1e854fe295326e73e913ea89542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:17 +0000
Subject: [PATCH 34/41] fix: partial dependence and additivity take predictions
 given as a series by position

---
 artemis/_utilities/pd_calculator.py     | 6 +++---
 artemis/additivity/_additivity_meter.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 82fb9bf..5167c17 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -136,14 +136,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = np.asarray(self.predict_function(self.model, X_full))
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = self.predict_function(self.model, X_full)
+        y = np.asarray(self.predict_function(self.model, X_full))
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -151,7 +151,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = np.asarray(self.predict_function(self.model, X_full))
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 1863f5a..8dd7571 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -106,7 +106,7 @@ class AdditivityMeter:
             show_progress=show_progress, desc=ProgressInfoLog.CALC_ADD
         )
 
-        self.preds = self.predict_function(self.model, self.X_sampled)
+        self.preds = np.asarray(self.predict_function(self.model, self.X_sampled))
         for var in self.X_sampled.columns:
             self.full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
 
-- 
2.43.0


From 4224a4c3c7db7f9e2c0960e22855021b4b49012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:52 +0000
Subject: [PATCH 35/41] fix: metrics compare targets and predictions by
 position and in floating point

---
 artemis/_utilities/performance_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/performance_metrics.py b/artemis/_utilities/performance_metrics.py
index a3b2dd8..e6dfe52 100644
--- a/artemis/_utilities/performance_metrics.py
+++ b/artemis/_utilities/performance_metrics.py
@@ -33,7 +33,7 @@ class MSE(Metric):
         super().__init__(ProblemType.REGRESSION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.square(y_hat - y_true).mean()
+        return np.square(np.asarray(y_hat, dtype=float) - np.asarray(y_true, dtype=float)).mean()
 
 
 class Accuracy(Metric):
@@ -42,4 +42,4 @@ class Accuracy(Metric):
         super().__init__(ProblemType.CLASSIFICATION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.equal(y_true, y_hat).mean()
+        return np.equal(np.asarray(y_true), np.asarray(y_hat)).mean()
-- 
2.43.0


From 532b50645f21aca34a982378ac62dfa39df2189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:25 +0000
Subject: [PATCH 36/41] fix: colours of the conditional bar chart follow the
 numbers of occurrences, also with ties

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index b894580..a6ebdd8 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -139,7 +139,7 @@ class Visualizer:
         new_cmap = colors.LinearSegmentedColormap.from_list("new_cmap", cmap(np.linspace(0.5, 1, 100)))
         sm = plt.cm.ScalarMappable(cmap=new_cmap, norm=norm)
         ax = sns.barplot(df_to_plot, x="Interaction", y=self.method, hue="n_occurences",
-                         palette=sm.to_rgba(np.flip(df_to_plot["n_occurences"])), dodge=False)
+                         palette=sm.to_rgba(np.unique(df_to_plot["n_occurences"])), dodge=False)
         plt.vlines(x=df_to_plot["Interaction"], ymin=df_to_plot[self.method],
                    ymax=df_to_plot["unconditional_importance"], color=color, alpha=0.5)
         plt.scatter(df_to_plot["Interaction"], y=df_to_plot["unconditional_importance"], color=color, marker="o")
-- 
2.43.0


From 43c070ceec57668aa2faf2f6ed83b106d6ead77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:21 +0000
Subject: [PATCH 37/41] fix: metrics compared every target with every
 prediction when either is a single column

---
 artemis/_utilities/performance_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/performance_metrics.py b/artemis/_utilities/performance_metrics.py
index e6dfe52..375e7e0 100644
--- a/artemis/_utilities/performance_metrics.py
+++ b/artemis/_utilities/performance_metrics.py
@@ -33,7 +33,7 @@ class MSE(Metric):
         super().__init__(ProblemType.REGRESSION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.square(np.asarray(y_hat, dtype=float) - np.asarray(y_true, dtype=float)).mean()
+        return np.square(np.ravel(np.asarray(y_hat, dtype=float)) - np.ravel(np.asarray(y_true, dtype=float))).mean()
 
 
 class Accuracy(Metric):
@@ -42,4 +42,4 @@ class Accuracy(Metric):
         super().__init__(ProblemType.CLASSIFICATION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.equal(np.asarray(y_true), np.asarray(y_hat)).mean()
+        return np.equal(np.ravel(y_true), np.ravel(y_hat)).mean()
-- 
2.43.0


From 2c211cf5b9ce1caf2124f864c274a13e208b874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:21 +0000
Subject: [PATCH 38/41] fix: one versus all H-statistic was wrong for
 predictions given as a single column

---
 .../partial_dependence_based/_friedman_h_statistic.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index af47695..7272e71 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -190,7 +190,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
 
     def _calculate_ova_interactions_from_pd(self, show_progress: bool) -> pd.DataFrame:
         self.pd_calculator.calculate_pd_minus_single(self.features_included, show_progress=show_progress)
-        preds = self.predict_function(self.model, self.X_sampled)
+        preds = np.ravel(self.predict_function(self.model, self.X_sampled))
         value_minus_single = []
         for feature in self.features_included:
             pd_f = self.pd_calculator.get_pd_single(feature, feature_values=self.X_sampled[feature].values)
-- 
2.43.0


From d80e25ad2ced447f3ababe874da690848ccf8c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:21 +0000
Subject: [PATCH 39/41] fix: additivity index was wrong for predictions given
 as a single column

---
 artemis/additivity/_additivity_meter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 8dd7571..92c4f86 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -106,7 +106,7 @@ class AdditivityMeter:
             show_progress=show_progress, desc=ProgressInfoLog.CALC_ADD
         )
 
-        self.preds = np.asarray(self.predict_function(self.model, self.X_sampled))
+        self.preds = np.ravel(self.predict_function(self.model, self.X_sampled))
         for var in self.X_sampled.columns:
             self.full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
 
-- 
2.43.0


From 6ba297a38626e0d762fff1b0039807f5d16caa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:20 +0000
Subject: [PATCH 40/41] fix: partial dependence turned categorical columns into
 plain ones, which models trained on categories reject

---
 artemis/_utilities/pd_calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5167c17..389d8b5 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -136,14 +136,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = np.asarray(self.predict_function(self.model, X_full))
+        y = np.asarray(self.predict_function(self.model, X_full.astype(self.X.dtypes)))
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = np.asarray(self.predict_function(self.model, X_full))
+        y = np.asarray(self.predict_function(self.model, X_full.astype(self.X.dtypes)))
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -151,7 +151,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = np.asarray(self.predict_function(self.model, X_full))
+        y = np.asarray(self.predict_function(self.model, X_full.astype(self.X.dtypes)))
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
-- 
2.43.0


From c2d1b6a30398bc2ea717c7b79c45a300403209e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:28 +0000
Subject: [PATCH 41/41] fix: permutation importance turned categorical columns
 into plain ones, which models trained on categories reject

---
 .../model_agnostic/_permutational_importance.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 87deb10..ddb6785 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -131,7 +131,7 @@ def _corrupted_scores(
         for feature in features:
             X_copy_permuted[feature] = random_generator.permutation(X_copy_permuted[feature])
             corrupted_scores[feature].append(
-                metric.calculate(y, model.predict(X_copy_permuted))
+                metric.calculate(y, model.predict(X_copy_permuted.astype(X.dtypes)))
             )
             X_copy_permuted[feature] = X[feature]
 
-- 
2.43.0

