From 340cda069f7c844bc873f8a1207515da02c59728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 01/26] fix: ALE local effects are divided by the width of
 their own bin

---
 effector/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index a783977..f531864 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -59,7 +59,7 @@ def compute_local_effects(
     left_lim = copy.deepcopy(data)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
-    dx = limits[1] - limits[0]
+    dx = limits[ind] - limits[ind - 1]
     data_effect = model(right_lim) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
-- 
2.43.0


From 9a46af48c45c20b51cdc0c7f0a46a29f6a9e00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 02/26] fix: integer-typed data no longer truncates the values
 a feature is set to

---
 effector/global_effect_pdp.py | 10 +++++-----
 effector/utils.py             |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 36bd8fd..bc059c8 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -464,7 +464,7 @@ def pdp_1d_non_vectorized(
     y_list = []
     if ask_for_derivatives and not model_returns_jac:
         for k in range(nof_instances):
-            x_new = copy.deepcopy(data)
+            x_new = copy.deepcopy(data).astype(float)
             x_new[:, feature] = x[k] + 1e-6
             y_1 = model(x_new)
             x_new[:, feature] = x[k] - 1e-6
@@ -474,7 +474,7 @@ def pdp_1d_non_vectorized(
         y = np.array(y_list)
     else:
         for k in range(nof_instances):
-            x_new = copy.deepcopy(data)
+            x_new = copy.deepcopy(data).astype(float)
             x_new[:, feature] = x[k]
             y = model(x_new)[:, feature] if model_returns_jac else model(x_new)
             y_list.append(y)
@@ -538,7 +538,7 @@ def pdp_1d_vectorized(
     """
 
     nof_instances = data.shape[0]
-    x_new = copy.deepcopy(data)
+    x_new = copy.deepcopy(data).astype(float)
     x_new = np.expand_dims(x_new, axis=0)
     x_new = np.repeat(x_new, x.shape[0], axis=0)
 
@@ -613,7 +613,7 @@ def pdp_nd_non_vectorized(
     stderr = []
     for k in range(K):
         # take all dataset
-        x_new = copy.deepcopy(data)
+        x_new = copy.deepcopy(data).astype(float)
 
         # set the features of all datapoints to the values of the k-th position
         for j, feat in features:
@@ -681,7 +681,7 @@ def pdp_nd_vectorized(
 
     assert len(features) == x.shape[1]
     nof_instances = data.shape[0]
-    x_new = copy.deepcopy(data)
+    x_new = copy.deepcopy(data).astype(float)
     x_new = np.expand_dims(x_new, axis=0)
     x_new = np.repeat(x_new, x.shape[0], axis=0)
     for j in range(len(features)):
diff --git a/effector/utils.py b/effector/utils.py
index f531864..6d273ba 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -55,8 +55,8 @@ def compute_local_effects(
     assert np.alltrue(ind > 0)
 
     # compute effect
-    right_lim = copy.deepcopy(data)
-    left_lim = copy.deepcopy(data)
+    right_lim = copy.deepcopy(data).astype(float)
+    left_lim = copy.deepcopy(data).astype(float)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
     dx = limits[ind] - limits[ind - 1]
@@ -471,6 +471,7 @@ def compute_jacobian_numerically(
 
     """
     assert data.ndim == 2
+    data = data.astype(float)
     jacobian = np.zeros_like(data)
     for f in range(data.shape[1]):
         data_plus = copy.deepcopy(data)
-- 
2.43.0


From 2986a08c7e73d9b60162c0d9a5d8b80e42f8a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 03/26] fix: PDP, d-PDP and SHAP-DP no longer drop rows
 permanently when a feature is fitted

---
 effector/global_effect_pdp.py  | 15 +++++++++------
 effector/global_effect_shap.py | 11 +++++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index bc059c8..774e46c 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -41,9 +41,9 @@ class PDPBase(GlobalEffectBase):
             )
         else:
             if self.model_jac is not None:
-                y = method(self.model_jac, self.data, xx, feature, False, True, True)
+                y = method(self.model_jac, data, xx, feature, False, True, True)
             else:
-                y = method(self.model, self.data, xx, feature, False, False, True, True)
+                y = method(self.model, data, xx, feature, False, False, True, True)
         return y
 
     def _fit_feature(
@@ -55,9 +55,9 @@ class PDPBase(GlobalEffectBase):
     ) -> dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
-        data = self.data
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
 
         if centering is True or centering == "zero_integral":
             xx = np.linspace(
@@ -169,7 +169,10 @@ class PDPBase(GlobalEffectBase):
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
 
         # new implementation
-        yy = self._predict(self.data, xs, feature, use_vectorized)
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
+        yy = self._predict(data, xs, feature, use_vectorized)
 
         if centering:
             norm_consts = np.expand_dims(
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 0c3ceee..bde8a25 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -102,11 +102,11 @@ class ShapDP(GlobalEffectBase):
     ) -> typing.Dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
 
         # compute shap values
-        data = self.data
         shap_explainer = shap.Explainer(self.model, data)
         explanation = shap_explainer(data)
 
@@ -298,7 +298,10 @@ class ShapDP(GlobalEffectBase):
         )
 
         # get some SHAP values
-        _, ind = helpers.prep_nof_instances(nof_shap_values, self.data.shape[0])
+        _, ind = helpers.prep_nof_instances(
+            nof_shap_values,
+            self.feature_effect["feature_" + str(feature)]["yy"].shape[0],
+        )
         yy = (
             self.feature_effect["feature_" + str(feature)]["yy"][ind]
             if heterogeneity == "shap_values"
-- 
2.43.0


From b082ff6c8668489dace9c7d45b9ce0eab6da5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 04/26] fix: ALE and RHALE keep the binning method of fit when
 eval has to refit

---
 effector/global_effect_ale.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9bd057e..61c2159 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -85,6 +85,7 @@ class ALEBase(GlobalEffectBase):
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
+                "binning_method": binning_method,
             }
 
     def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
@@ -138,7 +139,12 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            # keep the binning method of the last fit, if any
+            fitted_args = self.method_args.get("feature_" + str(feature), {})
+            kwargs = {
+                k: v for k, v in fitted_args.items() if k == "binning_method"
+            }
+            self.fit(features=feature, centering=centering, **kwargs)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From 7b96cf504f610034c969fde23100d5840518c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 05/26] fix: RHALE.fit accepts the documented "dp" binning
 method

---
 effector/global_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 61c2159..d627f48 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -553,7 +553,7 @@ class RHALE(ALEBase):
         """
         assert binning_method in [
             "greedy",
-            "dynamic",
+            "dp",
             "fixed"
         ] or isinstance(
             binning_method, bm.Greedy
-- 
2.43.0


From 05e86b832cf8234315db50c2381587ebb04e4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 06/26] fix: PDP and SHAP-DP keep points_for_centering of fit
 when eval has to refit

---
 effector/global_effect_pdp.py  | 9 ++++++++-
 effector/global_effect_shap.py | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 774e46c..e45bf84 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -163,7 +163,14 @@ class PDPBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized)
+            # keep the number of centering points of the last fit, if any
+            fitted_args = self.method_args.get("feature_" + str(feature), {})
+            self.fit(
+                features=feature,
+                centering=centering,
+                points_for_centering=fitted_args.get("points_for_centering", 100),
+                use_vectorized=use_vectorized,
+            )
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index bde8a25..fd796da 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -230,7 +230,13 @@ class ShapDP(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            # keep the number of centering points of the last fit, if any
+            fitted_args = self.method_args.get("feature_" + str(feature), {})
+            self.fit(
+                features=feature,
+                centering=centering,
+                points_for_centering=fitted_args.get("points_for_centering", 100),
+            )
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From 6977e37a17e4e21faec73c600ecbf5d74a3ff087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 07/26] fix: effects of third-level and deeper nodes are split
 from the parent's effects, not its data

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index c590a3a..7b1b14f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -434,7 +434,7 @@ class Regions:
             # update parent_level_nodes
             parent_level_nodes = new_parent_level_nodes
             parent_level_data = new_parent_level_data
-            parent_level_data_effect = new_parent_level_data
+            parent_level_data_effect = new_parent_level_data_effect
 
         return tree
 
-- 
2.43.0


From 7e441dc20671489469d16b0a00d1bbf7daab6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 08/26] fix: rows equal to a numerical split position go to the
 <= child, as the node labels say

---
 effector/partitioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 7b1b14f..cbe3de5 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -312,8 +312,8 @@ class Regions:
             ind_1 = x[:, feature] == position
             ind_2 = x[:, feature] != position
         else:
-            ind_1 = x[:, feature] < position
-            ind_2 = x[:, feature] >= position
+            ind_1 = x[:, feature] <= position
+            ind_2 = x[:, feature] > position
 
         if x_jac is None:
             X1 = x[ind_1, :]
-- 
2.43.0


From dffc22057bf7fcd18c15b619c63b8ecf966b0e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 09/26] fix: HIndex and REPID call the PDP functions with their
 current signature

---
 effector/interaction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index cfa6e04..ccd6fc7 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -115,14 +115,14 @@ class HIndex:
 
     def _pdp_1d(self, feature, x):
         # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, uncertainty=False, model_returns_jac=False)
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
     def _pdp_2d(self, feature1, feature2, x1, x2):
         features = [feature1, feature2]
         x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
@@ -131,7 +131,7 @@ class HIndex:
         features = [i for i in range(self.nof_features) if i != feature]
         assert len(features) == x.shape[1]
 
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
@@ -208,7 +208,7 @@ class REPID:
         stop = axis_limits[:, feat][1]
         x = np.linspace(start, stop, 21)
         x = 0.5 * (x[:-1] + x[1:])
-        mu, std, stderr = pdp.eval(feature=feat, xs=x, uncertainty=True, centering="zero_start") # "zero_integral")
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
         interaction = np.mean(std)
 
         # store the interaction index
-- 
2.43.0


From d22bbad5f4e30b6bc2eee82740f946894f50a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 10/26] fix: pdp_nd_non_vectorized enumerates the features

---
 effector/global_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index e45bf84..f4b11f8 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -626,7 +626,7 @@ def pdp_nd_non_vectorized(
         x_new = copy.deepcopy(data).astype(float)
 
         # set the features of all datapoints to the values of the k-th position
-        for j, feat in features:
+        for j, feat in enumerate(features):
             x_new[:, feat] = x[k, j]
 
         # compute the prediction or the Jacobian wrt the input
-- 
2.43.0


From 0dad7ffaf405531a72beb611a855b79dfa97da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 11/26] fix: the accumulated effect stays flat right of the
 last limit for values above 1e8

---
 effector/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index 6d273ba..ddb49de 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -352,9 +352,10 @@ def compute_accumulated_effect(
     full_bin_effect = tmp[ind]
 
     # for each point, find the remaining effect
-    tmp = np.concatenate([[limits[0]], limits[:-1], [BIG_M]])
+    tmp = np.concatenate([[limits[0]], limits[:-1], [limits[-1]]])
     deltas = x - tmp[ind]
     deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
+    deltas[ind == limits.shape[0]] = 0  # if xs >= right_limit => delta = 0
     deltas = deltas**2 if square else deltas
     tmp = np.concatenate([[0.0], bin_effect, [bin_effect[-1]]])
     remaining_effect = deltas * tmp[ind]
-- 
2.43.0


From 9de7f771cfeadf93c5a2232986861d2b55e75505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 12/26] fix: ALE plots rescale the bins when only one of
 scale_x and scale_y is given

---
 effector/visualization.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4dde363..116eb54 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -76,16 +76,10 @@ def ale_plot(
         if scale_x is None
         else trans_scale(ale_params["dx"], scale_x["std"])
     )
-    bin_variance = (
-        ale_params["bin_variance"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_variance"], scale_x["std"], scale_y["std"], True)
-    )
-    bin_effect = (
-        ale_params["bin_effect"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_effect"], scale_x["std"], scale_y["std"])
-    )
+    std_x = 1.0 if scale_x is None else scale_x["std"]
+    std_y = 1.0 if scale_y is None else scale_y["std"]
+    bin_variance = trans_bin(ale_params["bin_variance"], std_x, std_y, True)
+    bin_effect = trans_bin(ale_params["bin_effect"], std_x, std_y)
 
     # PLOT
     fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)
-- 
2.43.0


From 340974ed4fe794a256c31b2e5628a7a2d9f58003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 13/26] fix: SHAP-DP plots without SHAP values accept scale_x
 and scale_y

---
 effector/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 116eb54..dd66a13 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -248,13 +248,15 @@ def plot_shap(
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-    xx = xx if scale_x is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
+    if xx is not None and scale_x is not None:
+        xx = trans_affine(xx, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
     if scale_y is not None:
         y_std = trans_scale(y_std, scale_y["std"], square=False)
         y = trans_affine(y, scale_y["mean"], scale_y["std"])
-        yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
+        if yy is not None:
+            yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
         # if avg_output is not None:
         #     avg_output = trans_scale(avg_output, scale_y["std"], square=False)
 
-- 
2.43.0


From 5baf6cb7d9b87b1c747f064f7820ba65fa726042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 14/26] fix: RegionalALE.plot draws the ALE of the node, not
 the RHALE

---
 effector/regional_effect_ale.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a101627..3ae36e8 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -315,11 +315,11 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        ale = ALE(data, self.model, self.nof_instances, None, feature_names=feature_names)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 def prep_binning_method(method):
-- 
2.43.0


From e2d0232cd4b4cef35130fa71365eae12b471f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 15/26] fix: regional effects drop the trees of an earlier
 scaled plot when refitted or plotted unscaled

---
 effector/regional_effect.py     | 5 +++++
 effector/regional_effect_ale.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 3a549c1..092bbe8 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -124,6 +124,8 @@ class RegionalEffectBase:
         regions.choose_important_splits()
         self.tree_full["feature_{}".format(feature)] = regions.splits_to_tree()
         self.tree_pruned["feature_{}".format(feature)] = regions.splits_to_tree(True)
+        self.tree_full_scaled.pop("feature_{}".format(feature), None)
+        self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
 
         # store the partitioning object
         self.partitioners["feature_{}".format(feature)] = regions
@@ -216,6 +218,9 @@ class RegionalEffectBase:
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
+        else:
+            self.tree_full_scaled.pop("feature_{}".format(feature), None)
+            self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
 
         data, data_effect, name = self.get_node_info(feature, node_idx)
         feature_names = copy.deepcopy(self.feature_names)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 3ae36e8..b010d7b 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -160,6 +160,9 @@ class RegionalRHALE(RegionalEffectBase):
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
+        else:
+            self.tree_full_scaled.pop("feature_{}".format(feature), None)
+            self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
 
         data, data_effect, name = self.get_node_info(feature, node_idx)
         feature_names = copy.deepcopy(self.feature_names)
@@ -308,6 +311,9 @@ class RegionalALE(RegionalEffectBase):
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
+        else:
+            self.tree_full_scaled.pop("feature_{}".format(feature), None)
+            self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
 
         data, data_effect, name = self.get_node_info(feature, node_idx)
         feature_names = copy.deepcopy(self.feature_names)
-- 
2.43.0


From b4f4b28c610d2d0a8d766a0ab675c9fa45b21980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 16/26] fix: d-PDP plots are labelled and rescaled as
 derivatives

---
 effector/global_effect_pdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index f4b11f8..b40616a 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -266,6 +266,7 @@ class PDPBase(GlobalEffectBase):
             avg_output=avg_output,
             feature_names=self.feature_names,
             target_name=self.target_name,
+            is_derivative=self.method_name != "pdp",
             nof_ice=nof_ice,
             y_limits=y_limits,
         )
-- 
2.43.0


From bb115a62676c99f70e88fee7b220c95708c2de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 17/26] fix: fixed-size binning refuses constant features and
 too few points instead of crashing or returning bins

---
 effector/bin_splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 4bdef24..f30d4cc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -364,6 +364,7 @@ class Fixed(BinBase):
 
         if self._none_valid_binning():
             self.limits = False
+            return self.limits
 
         if self._is_categorical(cat_limit):
             return self.limits
-- 
2.43.0


From 39fbbeea28523e342bef687dedcd4806a0c81ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 18/26] fix: fixed-size binning accepts min_points=None

---
 effector/bin_splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f30d4cc..411de78 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -82,7 +82,8 @@ class BinBase:
         cond_1 = len(np.unique(self.data[:, self.feature])) == 1
 
         # if there are less than min_points, then it is impossible to create any binning
-        cond_2 = self.data[:, self.feature].size < self.method_args["min_points"]
+        min_points = self.method_args["min_points"]
+        cond_2 = min_points is not None and self.data[:, self.feature].size < min_points
 
         # if either is true, then it is impossible to create any binning
         return cond_1 or cond_2
-- 
2.43.0


From d406cfdd7c4d25e02bd5e969f654d5e413ab2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 19/26] fix: ALE and RHALE accept features so large that the
 1e-8 nudge of the last limit is lost

---
 effector/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/effector/utils.py b/effector/utils.py
index ddb49de..f18111a 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -52,6 +52,7 @@ def compute_local_effects(
     # for each point, find the bin-index it belongs to
     limits[-1] += EPS
     ind = np.digitize(data[:, feature], limits)
+    ind[data[:, feature] == limits[-1]] = limits.shape[0] - 1  # EPS is lost for large limits
     assert np.alltrue(ind > 0)
 
     # compute effect
@@ -143,6 +144,7 @@ def compute_bin_effect(
     limits_enh = copy.deepcopy(limits).astype(float)
     limits_enh[-1] += EPS
     ind = np.digitize(xs, limits_enh)
+    ind[xs == limits_enh[-1]] = limits.shape[0] - 1  # EPS is lost for large limits
     # assert np.alltrue(ind > 0)
 
     # bin effect is the mean of all points that lie in the bin
@@ -216,6 +218,7 @@ def compute_bin_variance(
     limits_enh = copy.deepcopy(limits).astype(float)
     limits_enh[-1] += eps
     ind = np.digitize(xs, limits_enh)
+    ind[xs == limits_enh[-1]] = limits.shape[0] - 1  # EPS is lost for large limits
     # assert np.alltrue(ind > 0)
 
     # variance of the effect in each bin
-- 
2.43.0


From de7ebc5c97126c007a7cba883a68ab5802d5e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 20/26] fix: RegionalPDP and RegionalDerPDP honour the
 centering argument of fit

---
 effector/regional_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 9bb6c93..ee67e02 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -55,7 +55,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
-                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, use_vectorized=use_vectorized)
+                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized)
             except:
                 return BIG_M
             return np.mean(z)
-- 
2.43.0


From a9e166e9b146bbff5fac61a1820cc2efa6f34528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 21/26] fix: regional PDP, d-PDP and SHAP-DP evaluate a node on
 all its instances, not a random subset

---
 effector/regional_effect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 092bbe8..6d0d3bd 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -164,11 +164,11 @@ class RegionalEffectBase:
         elif self.method_name == "ale":
             return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 1b5198f2384d2a48791e6768ab23a34a7e7cda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 22/26] fix: evaluating a RHALE/ALE region uses the binning
 method given to fit

---
 effector/regional_effect.py     | 3 +++
 effector/regional_effect_ale.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 6d0d3bd..d2cc8a4 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -199,6 +199,9 @@ class RegionalEffectBase:
         centering = helpers.prep_centering(centering)
         data, data_effect, _ = self.get_node_info(feature, node_idx)
         fe_method = self._create_fe_object(data, data_effect, None)
+        method_args = self.method_args.get("feature_" + str(feature), {})
+        if "binning_method" in method_args:
+            fe_method.fit(feature, binning_method=method_args["binning_method"], centering=centering)
         return fe_method.eval(feature, xs, heterogeneity, centering)
 
     def fit(self, *args, **kwargs):
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index b010d7b..c6681ca 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -141,7 +141,7 @@ class RegionalRHALE(RegionalEffectBase):
                 "min_points_per_subregion": min_points_per_subregion,
                 "candidate_conditioning_features": candidate_conditioning_features,
                 "split_categorical_features": split_categorical_features,
-                "binning_method": binning_method,
+                "binning_method": prep_binning_method(binning_method),
             }
 
     def plot(self,
@@ -291,7 +291,7 @@ class RegionalALE(RegionalEffectBase):
                 "min_points_per_subregion": min_points_per_subregion,
                 "candidate_conditioning_features": candidate_conditioning_features,
                 "split_categorical_features": split_categorical_features,
-                "binning_method": binning_method,
+                "binning_method": prep_binning_method(binning_method),
                 "centering": centering,
             }
 
-- 
2.43.0


From b036c4779a18ef52cf963f24993df2c7644b9af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 23/26] fix: dynamic-programming binning without a minimum
 treats an empty bin as free instead of returning unsorted limits

---
 effector/bin_splitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 411de78..29e09f8 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -271,6 +271,8 @@ class DP(BinBase):
         else:
             start, stop = self._index_to_position(index_before, index_next, K)
             cost = self._bin_cost(start, stop, discount)
+            # a bin without instances (min_points=0) has no effects to vary
+            cost = 0 if np.isnan(cost) else cost
         return cost
 
     def _argmatrix_to_limits(self, K):
-- 
2.43.0


From 91f0cc79931282cbd955c4c03b30be8ad2ed1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 24/26] fix: an unused candidate slot is never chosen as the
 best split (IndexError when every child was below the minimum size)

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index cbe3de5..4408009 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -153,7 +153,7 @@ class Regions:
 
         data = self.data
 
-        big_M = -BIG_M
+        big_M = -np.inf
 
         # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
         # the accumulated heterogeneity drop if I split foc[i] at index j
-- 
2.43.0


From b33f7c2da7fa4d112645746da3a66e80a2daf9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:44 +0000
Subject: [PATCH 25/26] fix: a feature declared categorical may have more
 distinct values than the limits (IndexError)

---
 effector/partitioning.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 4408009..0e38c03 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -149,20 +149,10 @@ class Regions:
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
         heter_func = self.heter_func
-        cat_limit = self.cat_limit
-
         data = self.data
 
         big_M = -np.inf
 
-        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
-        # weighted_heter[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity if I split foc[i] at index j
-        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
         candidate_split_positions = [
@@ -171,6 +161,15 @@ class Regions:
             else self.find_positions_cont(data, foc_i, nof_splits)
             for i, foc_i in enumerate(foc)
         ]
+        nof_positions = max([len(positions) for positions in candidate_split_positions])
+
+        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity drop if I split foc[i] at index j
+        weighted_heter_drop = np.ones([len(foc), nof_positions]) * big_M
+
+        # weighted_heter[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity if I split foc[i] at index j
+        weighted_heter = np.ones([len(foc), nof_positions]) * big_M
 
         # exhaustive search on all split positions
         for i, foc_i in enumerate(foc):
-- 
2.43.0


From d3f89c2b5a2e9202a487c63457d399b2999ba8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:51 +0000
Subject: [PATCH 26/26] fix: REPID uses all its instances, not a random subset
 of 300

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index ccd6fc7..a968419 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -200,7 +200,7 @@ class REPID:
             return self.one_vs_all_matrix[feat]
 
         axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
         pdp.fit(feat)
 
         # find the interaction index
-- 
2.43.0

