From 90890e306dceafe49cc478804b4917297d27a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:02 +0000
Subject: [PATCH 01/73] fix: conformal classification keeps classes whose score
 is low among calibration scores

The comparison was reversed: the sets dropped the most probable classes and
kept the least probable ones.
---
 fortuna/conformal/classification/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/base.py b/fortuna/conformal/classification/base.py
index 73aa3b2..bca3a12 100644
--- a/fortuna/conformal/classification/base.py
+++ b/fortuna/conformal/classification/base.py
@@ -48,7 +48,7 @@ class ConformalClassifier:
         test_scores: Array,
         error: float,
     ) -> List[List[int]]:
-        conds = jnp.sum(val_scores[:, None, None] > test_scores[None], axis=0) < (
+        conds = jnp.sum(val_scores[:, None, None] < test_scores[None], axis=0) < (
             1 - error
         ) * (len(val_scores) + 1)
         sizes = conds.sum(1)
-- 
2.43.0


From 568d6faf5b85a4c68b4805582f38905a8d4292af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 02/73] fix: EnbPI residual window holds the whole new batch
 and leaves the caller's residuals alone

---
 fortuna/conformal/regression/enbpi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/regression/enbpi.py b/fortuna/conformal/regression/enbpi.py
index 32c5e00..d507168 100644
--- a/fortuna/conformal/regression/enbpi.py
+++ b/fortuna/conformal/regression/enbpi.py
@@ -273,10 +273,13 @@ class EnbPI(ConformalRegressor):
                     "second dimension greater than 1."
                 )
 
-        train_residuals[:-1] = train_residuals[1:]
-        train_residuals[-1] = np.abs(
+        new_train_residuals = np.abs(
             new_train_targets - self.aggregation_fun(bootstrap_new_train_preds)
         )
+        n_residuals = len(train_residuals)
+        train_residuals = np.concatenate((train_residuals, new_train_residuals))[
+            -n_residuals:
+        ]
         aggr_test_preds = self.aggregation_fun(bootstrap_new_test_preds)
         residuals_quantile = jnp.quantile(train_residuals, q=1 - error, axis=0)
 
-- 
2.43.0


From e5581f8a9d7fa1ea0f32280f0396741c4f82b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 03/73] fix: CV+ does not rewrite the caller's lists of
 one-dimensional arrays

---
 fortuna/conformal/regression/cvplus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 2fee601..9ef9ea7 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -55,6 +55,9 @@ class CVPlusConformalRegressor(ConformalRegressor):
             raise TypeError("`cross_val_targets` must be a list of arrays.")
         if type(cross_test_outputs) != list:
             raise TypeError("`cross_test_outputs` must be a list of arrays.")
+        cross_val_outputs = list(cross_val_outputs)
+        cross_val_targets = list(cross_val_targets)
+        cross_test_outputs = list(cross_test_outputs)
         for i, (mu, y, mu_test) in enumerate(
             zip(cross_val_outputs, cross_val_targets, cross_test_outputs)
         ):
-- 
2.43.0


From 6f7ddc8c8eb62c63ac3de15e9c06e49a25a52b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 04/73] fix: adaptive conformal methods accept scalar and
 one-element targets alike

A one-element class target was never found in the conformal set, and a scalar
regression target failed together with weights.
---
 .../conformal/classification/adaptive_conformal_classifier.py   | 2 +-
 fortuna/conformal/regression/adaptive_conformal_regressor.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/classification/adaptive_conformal_classifier.py b/fortuna/conformal/classification/adaptive_conformal_classifier.py
index 21c372c..45238f2 100644
--- a/fortuna/conformal/classification/adaptive_conformal_classifier.py
+++ b/fortuna/conformal/classification/adaptive_conformal_classifier.py
@@ -110,7 +110,7 @@ class AdaptiveConformalClassifier(ConformalClassifier):
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], [conformal_set])
+        is_in = self.is_in(target.reshape(1), [conformal_set])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
diff --git a/fortuna/conformal/regression/adaptive_conformal_regressor.py b/fortuna/conformal/regression/adaptive_conformal_regressor.py
index 15fb66f..101e0f0 100644
--- a/fortuna/conformal/regression/adaptive_conformal_regressor.py
+++ b/fortuna/conformal/regression/adaptive_conformal_regressor.py
@@ -107,7 +107,7 @@ class AdaptiveConformalRegressor:
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], conformal_interval[None])[0]
+        is_in = self.is_in(target.reshape(1), conformal_interval[None])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
-- 
2.43.0


From 07ea4bc273ea43da7fc6325e60c7095a6ef8ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 05/73] fix: true negative coverage counts the event on which
 true negative precision is conditioned

---
 .../classification/maxcovfixprec_binary_classfication.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
index df57741..82c0dbd 100644
--- a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
+++ b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
@@ -117,7 +117,7 @@ class MaxCoverageFixedPrecisionBinaryClassificationCalibrator:
 
     @staticmethod
     def true_negative_coverage(probs: Array, threshold: float):
-        return jnp.mean(probs <= threshold)
+        return jnp.mean(probs <= 1 - threshold)
 
     @property
     def patches(self):
-- 
2.43.0


From 3666da0fd4168145ee370b9cb917f20a4eac2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 06/73] fix: multicalibration compares its tolerance with the
 mean, not the sum, of squared errors

---
 fortuna/conformal/multivalid/mixins/multicalibrator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/multicalibrator.py b/fortuna/conformal/multivalid/mixins/multicalibrator.py
index ac0f691..c90dc56 100644
--- a/fortuna/conformal/multivalid/mixins/multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/multicalibrator.py
@@ -27,5 +27,4 @@ class MulticalibratorMixin:
     def _loss_fn(values: Array, scores: Array) -> Array:
         if scores.ndim == 2 and values.ndim == 1:
             scores = scores[:, 0]
-            return jnp.mean(jnp.sum((values - scores) ** 2, axis=-1))
         return jnp.mean((values - scores) ** 2)
-- 
2.43.0


From 7dac3ff3afba7629eb067c062159b9b41f1339b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 07/73] fix: keep the multivalid patch that attains the
 absolute tolerance

---
 fortuna/conformal/multivalid/iterative/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index ba50f37..a7f1033 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -266,6 +266,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 )
                 break
             if val_losses[-1] <= atol:
+                self._patches.append((taut, gt, vt, ct, patch))
                 logging.info(f"Absolute tolerance satisfied after {t} rounds.")
                 converged = True
                 break
-- 
2.43.0


From 631788ca800fda1fcf0597ae60960957e0ea3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 08/73] fix: one-shot multicalibration maps each value by its
 own bucket, whatever the other values

---
 fortuna/conformal/multivalid/one_shot/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/conformal/multivalid/one_shot/base.py b/fortuna/conformal/multivalid/one_shot/base.py
index 1a73f40..fa6607a 100644
--- a/fortuna/conformal/multivalid/one_shot/base.py
+++ b/fortuna/conformal/multivalid/one_shot/base.py
@@ -137,13 +137,13 @@ class OneShotMultivalidMethod(MultivalidMethod):
             for c in range(b.shape[2]):
                 idx_v = jnp.argmin(jnp.abs(buckets - v))
                 if values.ndim == 1:
-                    patched_values = patched_values.at[b[:, i, c]].set(
+                    patched_values = patched_values.at[b[:, i, c] * (values == v)].set(
                         self._patches[idx_v, c]
                     )
                 else:
-                    patched_values = patched_values.at[b[:, i, c], c].set(
-                        self._patches[idx_v, c]
-                    )
+                    patched_values = patched_values.at[
+                        b[:, i, c] * (values[:, c] == v), c
+                    ].set(self._patches[idx_v, c])
         return patched_values
 
     @abc.abstractmethod
-- 
2.43.0


From beae655a11f2d8ad9ef4ca3373d15272a5314921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 09/73] fix: BatchMVP calibration error works with default
 thresholds

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index 6e9691b..eadb76d 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -279,7 +279,7 @@ class BatchMVPConformalMethod(
     def _maybe_check_values(
         values: Optional[Array], test_values: Optional[Array] = None
     ):
-        if jnp.any(values < 0) or jnp.any(values > 1):
+        if values is not None and (jnp.any(values < 0) or jnp.any(values > 1)):
             raise ValueError("All elements in `thresholds` must be within [0, 1].")
 
     @staticmethod
-- 
2.43.0


From 5c254098d68a19553b3fb0571f808da9df0bfaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 10/73] fix: the BatchMVP regressor checks membership in
 intervals rather than in sets of classes

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index eadb76d..9faaa3b 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -8,15 +8,12 @@ from typing import (
 from jax import vmap
 import jax.numpy as jnp
 
-from fortuna.conformal.classification.base import ConformalClassifier
 from fortuna.conformal.multivalid.iterative.base import IterativeMultivalidMethod
 from fortuna.conformal.multivalid.mixins.batchmvp import BatchMVPMixin
 from fortuna.typing import Array
 
 
-class BatchMVPConformalMethod(
-    BatchMVPMixin, IterativeMultivalidMethod, ConformalClassifier
-):
+class BatchMVPConformalMethod(BatchMVPMixin, IterativeMultivalidMethod):
     def __init__(self, seed: int = 0):
         """
         This class implements a classification version of BatchMVP
-- 
2.43.0


From 0ed1fa053b8740cdffbde532598fcac285fd719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 11/73] fix: one-shot multivalid patches apply to numpy arrays
 too

---
 fortuna/conformal/multivalid/one_shot/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/conformal/multivalid/one_shot/base.py b/fortuna/conformal/multivalid/one_shot/base.py
index fa6607a..e9ba5f2 100644
--- a/fortuna/conformal/multivalid/one_shot/base.py
+++ b/fortuna/conformal/multivalid/one_shot/base.py
@@ -104,6 +104,7 @@ class OneShotMultivalidMethod(MultivalidMethod):
             logging.warning("No patches available.")
             return values
 
+        values, _ = self._maybe_process_values(values, None)
         buckets = self._get_buckets(self.n_buckets)
         unique_values = jnp.unique(values)
 
-- 
2.43.0


From 4d70a0d29dfa21ffc4f338e58fb8849b96e5ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 12/73] fix: maximum calibration error is the largest gap, not
 the largest gap times its count

---
 fortuna/metric/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/metric/classification.py b/fortuna/metric/classification.py
index 3b121f0..aa23e51 100755
--- a/fortuna/metric/classification.py
+++ b/fortuna/metric/classification.py
@@ -177,7 +177,7 @@ def maximum_calibration_error(
     counts, confs, accs = compute_counts_confs_accs(
         preds, probs, targets, plot, plot_options
     )
-    mce = jnp.max(counts * jnp.abs(accs - confs))
+    mce = jnp.max(jnp.abs(accs - confs))
     return mce
 
 
-- 
2.43.0


From 2e0e9cba87b42176dc99fde5fc57c72ad8a69abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 13/73] fix: BaseTargetsLoader.from_data_loader returns a
 targets loader

---
 fortuna/data/loader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index 73e1b1c..8d2a675 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -459,7 +459,7 @@ class BaseTargetsLoader:
         T
             A concrete instance of a subclass of :class:`~fortuna.data.loader.BaseTargetsLoader`.
         """
-        return IterableData.data_loader_to_targets_iterable(data_loader)
+        return cls(iterable=IterableData.data_loader_to_targets_iterable(data_loader))
 
     @classmethod
     def from_callable_iterable(
-- 
2.43.0


From d5d651d16de8feb23246ea0917494c91d2af559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:25 +0000
Subject: [PATCH 14/73] fix: data loaders of dictionaries can be transformed

---
 fortuna/data/loader/utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fortuna/data/loader/utils.py b/fortuna/data/loader/utils.py
index dee5c35..213d93e 100644
--- a/fortuna/data/loader/utils.py
+++ b/fortuna/data/loader/utils.py
@@ -19,6 +19,12 @@ from fortuna.typing import (
 )
 
 
+def _get_n_data(data: Union[InputData, Targets]) -> int:
+    if isinstance(data, dict):
+        data = next(iter(data.values()))
+    return len(data)
+
+
 class IterableData:
     def __init__(
         self,
@@ -189,13 +195,13 @@ class IterableData:
                 if (
                     inputs is not None
                     and targets is not None
-                    and len(inputs) > 0
+                    and _get_n_data(inputs) > 0
                     and len(targets) > 0
                 ):
-                    if inputs.shape[0] != targets.shape[0]:
+                    if _get_n_data(inputs) != targets.shape[0]:
                         raise ValueError(
                             "The first dimension of transformed inputs and targets must be the same, but "
-                            f"{inputs.shape[0]} and {targets.shape[0]} were found."
+                            f"{_get_n_data(inputs)} and {targets.shape[0]} were found."
                         )
                     yield inputs, targets
 
@@ -209,7 +215,7 @@ class IterableData:
             _status = deepcopy(status)
             for data in loader:
                 data, _status = transform_fn(data, _status)
-                if data is not None and len(data) > 0:
+                if data is not None and _get_n_data(data) > 0:
                     yield data
 
         return cls(_inner)
-- 
2.43.0


From 18a0dce776cddadd080f7e53114c5298ac1f5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:17 +0000
Subject: [PATCH 15/73] fix: regression models with mutable variables (e.g.
 batch norm) can be trained and evaluated

---
 fortuna/model/model_manager/regression.py | 83 ++++++++++-------------
 1 file changed, 36 insertions(+), 47 deletions(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index d915c4b..c1aa617 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -63,80 +63,69 @@ class RegressionModelManager(ModelManager):
             model_rngs = None
             lik_log_var_rngs = None
 
-        if mutable is not None:
-            mutable["model"] = mutable.get("model")
-            mutable["lik_log_var"] = mutable.get("lik_log_var")
-
-        model_has_aux = train and mutable is not None and mutable["model"] is not None
-        lik_log_var_has_aux = (
-            train and mutable is not None and mutable["lik_log_var"] is not None
-        )
+        # variables that are not parameters live in `mutable`
+        mutables = {
+            k: (mutable.get(k) or dict()) if mutable is not None else dict()
+            for k in ["model", "lik_log_var"]
+        }
+        model_has_aux = train and len(mutables["model"]) > 0
+        lik_log_var_has_aux = train and len(mutables["lik_log_var"]) > 0
 
-        def apply_fn(p, x, m_mutable, llv_mutable):
+        def apply_fn(p, x):
             model_outputs = self.model.apply(
-                p["model"],
+                {**p["model"], **mutables["model"]},
                 x,
                 train=train,
-                mutable=m_mutable,
+                mutable=list(mutables["model"].keys()) if model_has_aux else False,
                 rngs=model_rngs,
             )
             lik_log_var_outputs = self.likelihood_log_variance_model.apply(
-                p["lik_log_var"],
+                {**p["lik_log_var"], **mutables["lik_log_var"]},
                 x,
                 train=train,
-                mutable=llv_mutable,
+                mutable=(
+                    list(mutables["lik_log_var"].keys())
+                    if lik_log_var_has_aux
+                    else False
+                ),
                 rngs=lik_log_var_rngs,
             )
 
-            if isinstance(model_outputs, tuple) and not model_has_aux:
-                model_outputs = model_outputs[0]
-            if isinstance(lik_log_var_outputs, tuple) and not lik_log_var_has_aux:
-                lik_log_var_outputs = lik_log_var_outputs[0]
-
+            aux = dict()
             if model_has_aux:
-                model_outputs, m_mutable = model_outputs
+                model_outputs, aux["model"] = model_outputs
             if lik_log_var_has_aux:
-                lik_log_var_outputs, llv_mutable = lik_log_var_outputs
+                lik_log_var_outputs, aux["lik_log_var"] = lik_log_var_outputs
 
-            self._check_outputs(model_outputs, lik_log_var_outputs)
+            if isinstance(model_outputs, tuple):
+                model_outputs = model_outputs[0]
+            if isinstance(lik_log_var_outputs, tuple):
+                lik_log_var_outputs = lik_log_var_outputs[0]
 
-            aux = dict()
-            if m_mutable or llv_mutable:
-                aux["mutable"] = dict()
-                if m_mutable:
-                    aux["mutable"]["model"] = m_mutable
-                if llv_mutable:
-                    aux["mutable"]["lik_log_var"] = m_mutable
+            self._check_outputs(model_outputs, lik_log_var_outputs)
 
-            return jnp.concatenate(
-                (model_outputs, lik_log_var_outputs), axis=-1
-            ), FrozenDict(aux)
+            return (
+                jnp.concatenate((model_outputs, lik_log_var_outputs), axis=-1),
+                aux,
+            )
 
         if self.model_editor is not None:
             outputs, aux = self.model_editor.apply(
                 params["model_editor"],
-                apply_fn=lambda p, x: apply_fn(
-                    p,
-                    x,
-                    m_mutable=mutable["model"] if mutable is not None else False,
-                    llv_mutable=(
-                        mutable["lik_log_var"] if mutable is not None else False
-                    ),
-                ),
+                apply_fn=apply_fn,
                 model_params=params,
                 x=inputs,
                 has_aux=True,
             )
         else:
-            outputs, aux = apply_fn(
-                params,
-                inputs,
-                m_mutable=mutable["model"] if mutable is not None else False,
-                llv_mutable=mutable["lik_log_var"] if mutable is not None else False,
-            )
+            outputs, aux = apply_fn(params, inputs)
 
-        if len(aux) > 0:
-            return outputs, aux
+        if train and mutable is not None:
+            return outputs, {
+                "mutable": FrozenDict(
+                    {**mutable, **{k: FrozenDict(v) for k, v in aux.items()}}
+                )
+            }
         return outputs
 
     def init(
-- 
2.43.0


From d0cc202ec2c5c2b7cabd09248cf73286f47fb0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 16/73] fix: unknown auxiliary objects are rejected with the
 intended error

---
 fortuna/calib_model/loss.py                   | 2 +-
 fortuna/likelihood/base.py                    | 6 +++---
 fortuna/output_calib_model/loss.py            | 2 +-
 fortuna/output_calib_model/predictive/base.py | 2 +-
 fortuna/prob_model/predictive/base.py         | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 8e675a1..1dae209 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -47,7 +47,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 37b392c..722e260 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -174,7 +174,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -311,7 +311,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -352,7 +352,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index cac3eb0..5142cb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -41,7 +41,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index a0707fb..fa19b10 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -273,7 +273,7 @@ class Predictive(WithRNG, abc.ABC):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e6983d1..0149cb1 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -218,7 +218,7 @@ class Predictive(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
-- 
2.43.0


From 9f345cd68b5e6d3dcb8fc99523e1ad95ed4d7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:43 +0000
Subject: [PATCH 17/73] fix: output layers take the square root of given
 variances and report bad interval types

---
 fortuna/prob_output_layer/base.py       | 2 +-
 fortuna/prob_output_layer/regression.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_output_layer/base.py b/fortuna/prob_output_layer/base.py
index 9423666..565dff2 100755
--- a/fortuna/prob_output_layer/base.py
+++ b/fortuna/prob_output_layer/base.py
@@ -149,7 +149,7 @@ class ProbOutputLayer(WithRNG, abc.ABC):
         jnp.ndarray
             The estimated standard deviation for each output.
         """
-        return jnp.sqrt(self.variance(outputs)) if variances is None else variances
+        return jnp.sqrt(self.variance(outputs) if variances is None else variances)
 
     @abc.abstractmethod
     def entropy(self, outputs: Array, **kwargs) -> jnp.ndarray:
diff --git a/fortuna/prob_output_layer/regression.py b/fortuna/prob_output_layer/regression.py
index 6577fb8..4af9f7d 100644
--- a/fortuna/prob_output_layer/regression.py
+++ b/fortuna/prob_output_layer/regression.py
@@ -122,7 +122,7 @@ class RegressionProbOutputLayer(ProbOutputLayer):
         if interval_type not in supported_types:
             raise ValueError(
                 "`type={}` not recognised. Please choose among the following supported types: {}.".format(
-                    supported_types
+                    interval_type, supported_types
                 )
             )
         q = (
-- 
2.43.0


From 98b5f02970806ea1ca906e0042cb8c9c1d99f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 18/73] fix: predictive samples accept a key, return auxiliary
 outputs and keep their shape over batches and devices

---
 fortuna/prob_model/predictive/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 0149cb1..013a4ec 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -353,7 +353,7 @@ class Predictive(WithRNG):
         Union[jnp.ndarray, Tuple[jnp.ndarray, Dict[str, jnp.ndarray]]]
             Samples for each input data point. Optionally, an auxiliary object is returned.
         """
-        if not rng:
+        if rng is None:
             rng = self.rng.get()
 
         def fun(_inputs):
@@ -367,7 +367,7 @@ class Predictive(WithRNG):
             if return_aux is None or len(return_aux) == 0:
                 return jnp.concatenate(
                     [
-                        self.likelihood._unshard_array(fun(inputs))
+                        self._unshard_ensemble_arrays(fun(inputs))
                         for inputs in inputs_loader
                     ],
                     1,
@@ -376,15 +376,15 @@ class Predictive(WithRNG):
                 samples, aux_outputs = [], []
                 for inputs in inputs_loader:
                     _samples, _aux = fun(inputs)
-                    samples.append(self.likelihood._unshard_array(_samples))
+                    samples.append(self._unshard_ensemble_arrays(_samples))
                     if "outputs" in _aux:
                         aux_outputs.append(
-                            self.likelihood._unshard_array(_aux["outputs"])
+                            self._unshard_ensemble_arrays(_aux["outputs"])
                         )
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
         else:
             fun = jit(fun)
@@ -397,10 +397,10 @@ class Predictive(WithRNG):
                     samples.append(_samples)
                     if "outputs" in _aux:
                         aux_outputs.append(_aux["outputs"])
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
 
     def _batched_sample(
-- 
2.43.0


From 778d399738345cb8d385ad9aca8d52307f8d1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 19/73] fix: credible sets fall back to all classes, not to the
 top one, when the mass rounds below the level

---
 fortuna/prob_model/predictive/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/predictive/classification.py b/fortuna/prob_model/predictive/classification.py
index 8119cd5..6a5aa3d 100644
--- a/fortuna/prob_model/predictive/classification.py
+++ b/fortuna/prob_model/predictive/classification.py
@@ -474,6 +474,8 @@ class ClassificationPredictive(Predictive):
         region_classes = jnp.cumsum(p_classes_sorted, axis=1) > (1 - error)
 
         # Convert CB region into sets
+        # the full set of classes always is a credible set, whatever the rounding error
+        region_classes = region_classes.at[:, -1].set(True)
         index_true = jnp.argmax(region_classes, axis=1)  # first index where True
         credible_set = np.zeros(len(index_true), dtype=object)
         for s in np.arange(n_classes):
-- 
2.43.0


From 23df2d0a4685056138966db91b522ffdf3a86c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 20/73] fix: the size of sampled outputs counts data points
 when distributed over devices

---
 fortuna/prob_model/predictive/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 013a4ec..73a78a8 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -560,11 +560,6 @@ class Predictive(WithRNG):
         iterable = []
         size = 0
         for inputs in inputs_loader:
-            size += (
-                inputs.shape[0]
-                if not isinstance(inputs, dict)
-                else inputs[list(inputs.keys())[0]].shape[0]
-            )
             if distribute:
                 outputs = jnp.stack(
                     list(map(lambda key: _sample(shard_prng_key(key), inputs), keys)),
@@ -573,6 +568,7 @@ class Predictive(WithRNG):
                 outputs = self._unshard_ensemble_arrays(outputs)
             else:
                 outputs = lax.map(lambda key: _sample(key, inputs), keys)
+            size += outputs.shape[1]
             iterable.append(outputs)
         iterable = TargetsLoader.from_iterable(iterable=iterable)
         if return_size:
-- 
2.43.0


From 41ae22a42fcd49b98aa8a491315b10c243b9ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 21/73] fix: list every leaf path when no freeze function is
 given

---
 fortuna/utils/freeze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/utils/freeze.py b/fortuna/utils/freeze.py
index a5c3c8f..1b3434f 100644
--- a/fortuna/utils/freeze.py
+++ b/fortuna/utils/freeze.py
@@ -126,6 +126,8 @@ def get_frozen_paths(
     Tuple[List[AnyKey], ...]
         A tuple of sequences of keys pointing to the frozen parameters only.
     """
+    if freeze_fun is None:
+        return ()
     return get_paths_with_label(
         params, freeze_fun, "frozen", allowed_labels=["frozen", "trainable"]
     )
@@ -145,4 +147,4 @@ def get_paths_with_label(
             [list(p) for c, p in zip(conds, flatten_dict(paths)) if c == label]
         )
     else:
-        return tuple([list(p) for p in paths])
+        return tuple([list(p) for p in flatten_dict(paths)])
-- 
2.43.0


From 34244d73572dc8efe33966e09e29a574d3e111de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 22/73] fix: keep the order of stored parameter paths beyond
 ten

---
 fortuna/utils/strings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fortuna/utils/strings.py b/fortuna/utils/strings.py
index f54e50a..ede58cd 100644
--- a/fortuna/utils/strings.py
+++ b/fortuna/utils/strings.py
@@ -36,6 +36,12 @@ def decode_encoded_tuple_of_lists_of_strings_to_array(
         return None
     encoded = tree_map(lambda v: "".join([chr(o) for o in v]), encoded)
     if isinstance(encoded, dict):
-        return tuple([list(v.values()) for k, v in encoded.items()])
+        # the keys are the stringified positions of the elements in the original tuple and lists
+        return tuple(
+            [
+                [encoded[i][j] for j in sorted(encoded[i], key=int)]
+                for i in sorted(encoded, key=int)
+            ]
+        )
     else:
         return encoded
-- 
2.43.0


From 182dcb7caa7bc581d99d7f414a54164504c740a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:27 +0000
Subject: [PATCH 23/73] fix: align gradient accumulation windows across epochs

---
 fortuna/training/trainer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 7703368..acb00c5 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -475,7 +475,7 @@ class TrainerABC(
         state = self.training_epoch_start(state, callbacks)
         # ensure to use a different key at each step
         model_key = self.training_step_start(rng, state.step)
-        for step, batch in enumerate(training_dataloader):
+        for batch in training_dataloader:
             # forward and backward pass
             state, aux = self.training_step(
                 state,
@@ -487,8 +487,9 @@ class TrainerABC(
                 training_kwargs,
             )
             self._global_training_step += 1
+            # accumulation windows run across epochs, as the step in the training state does
             if (gradient_accumulation_steps > 0) and (
-                (step + 1) % gradient_accumulation_steps != 0
+                self._global_training_step % gradient_accumulation_steps != 0
             ):
                 continue
             # update model key
@@ -584,6 +585,9 @@ class TrainerABC(
     def _get_mean_losses_and_metrics(
         self, losses_and_metrics: List[Dict[str, jnp.ndarray]]
     ) -> Dict[str, float]:
+        if len(losses_and_metrics) == 0:
+            # no accumulation window was completed in this epoch
+            return {}
         losses_and_metrics = stack_forest(losses_and_metrics)
         losses_and_metrics = tree_map(lambda x: x.mean(), losses_and_metrics)
         return losses_and_metrics
-- 
2.43.0


From 46e94bd39b5d9d655bcebc05b4bec9853481142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 24/73] fix: accept eval_every_n_epochs=None as documented

---
 fortuna/training/trainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index acb00c5..e0d3490 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -597,6 +597,7 @@ class TrainerABC(
     ) -> bool:
         return (
             validation_dataloader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
-- 
2.43.0


From e947cd68ccfafb1c7c3a292a4f16ce092449c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 25/73] fix: accept eval_every_n_epochs=None as documented in
 calibration

---
 fortuna/output_calib_model/output_calib_model_calibrator.py | 1 +
 fortuna/training/output_calibrator.py                       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index 2dfb5a9..ea53dbd 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -457,6 +457,7 @@ class OutputCalibModelCalibrator(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 7e7a774..9703392 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -443,6 +443,7 @@ class OutputCalibratorABC(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
-- 
2.43.0


From 5470f4037dba022cd4261f5fe0871cfdc7fd9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 26/73] fix: states of a chain can be put and pulled as a list

---
 .../posterior/sgmcmc/sgmcmc_posterior_state_repository.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
index be34312..976f39a 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
@@ -119,7 +119,7 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
             return state
 
         if isinstance(state, list):
-            return [_update_state(_state, modify=modify) for _state in state]
+            return [self._update_state(_state, modify=modify) for _state in state]
 
         if modify == "add":
             state = state.replace(
@@ -154,6 +154,6 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
                 step=state.step,
             )
         else:
-            raise RuntimeError(f"Invalid update state method {method}.")
+            raise RuntimeError(f"Invalid update state method {modify}.")
 
         return state
-- 
2.43.0


From 0ab5a2f0aec62d96daeb51f3c069d2a8b55bf306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 27/73] fix: step schedules accept no burn-in steps

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
index 485a680..b3b206b 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
@@ -109,7 +109,7 @@ def constant_schedule_with_cosine_burnin(
         raise ValueError("`burnin_steps` should be >= 0.")
 
     def schedule(step: Array):
-        t = jnp.minimum(step / burnin_steps, 1.0)
+        t = jnp.minimum(step / burnin_steps, 1.0) if burnin_steps > 0 else 1.0
         coef = (1 + jnp.cos(t * np.pi)) * 0.5
         return coef * init_step_size + (1 - coef) * final_step_size
 
-- 
2.43.0


From dea2106ed4bf425a68816ec928e0add57aee809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 28/73] fix: a multi-state repository can put a state in every
 slot

---
 .../prob_model/posterior/posterior_multi_state_repository.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/posterior_multi_state_repository.py b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
index 734aacb..5b35a42 100644
--- a/fortuna/prob_model/posterior/posterior_multi_state_repository.py
+++ b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
@@ -68,7 +68,7 @@ class PosteriorMultiStateRepository:
             _put(i)
         else:
             for i in range(self.size):
-                state.append(_put(i))
+                _put(i)
 
     def pull(
         self,
-- 
2.43.0


From 2cc7a46142430e9015a9169248778a7bae7d1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 29/73] fix: the kernel Stein discrepancy accepts its
 documented c and beta

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
index 0ac0c31..b97e6ad 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
@@ -1,3 +1,4 @@
+from functools import partial
 from typing import (
     List,
     Optional,
@@ -13,7 +14,7 @@ import jax.numpy as jnp
 from optax._src.base import PyTree
 
 
-@jit
+@partial(jit, static_argnames=("c", "beta"))
 def kernel_stein_discrepancy_imq(
     samples: List[PyTree],
     grads: List[PyTree],
-- 
2.43.0


From 2ad3e055985b4e639b7ed891b80227689ea122c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 30/73] fix: deep ensembles and chains are saved in the given
 directory

---
 .../deep_ensemble/deep_ensemble_posterior.py    |  7 ++++++-
 .../posterior/sgmcmc/sgmcmc_posterior.py        | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index bf72cdb..d6fb824 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -220,7 +220,12 @@ class DeepEnsemblePosterior(Posterior):
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
         for i in range(self.posterior_approximator.ensemble_size):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
 
     def _init_map_state(
         self, state: Optional[MAPState], data_loader: DataLoader, fit_config: FitConfig
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index b6de41e..3263d84 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -76,8 +76,21 @@ class SGMCMCPosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
-        for i in range(self.posterior_approximator.n_samples):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+        n_samples = self.posterior_approximator.n_samples
+        for i in range(n_samples):
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
+        # `load_state` reads the shape of the chain from its last state
+        self.save_checkpoint(
+            self.state.get(n_samples - 1),
+            save_checkpoint_dir=pathlib.Path(checkpoint_dir) / "c",
+            keep=keep_top_n_checkpoints,
+            force_save=True,
+        )
 
     def _restore_state_from_somewhere(
         self,
-- 
2.43.0


From 75b9dae46195de6d73299f0eca8ac0cc6f471ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 31/73] fix: updating a stored state does not delete it first

---
 fortuna/training/train_state_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/training/train_state_repository.py b/fortuna/training/train_state_repository.py
index 25cd7fd..6d2e26f 100644
--- a/fortuna/training/train_state_repository.py
+++ b/fortuna/training/train_state_repository.py
@@ -90,7 +90,7 @@ class TrainStateRepository(WithCheckpointingMixin):
         prefix: str = "checkpoint_",
         **kwargs,
     ):
-        state = self.pull(
+        state = self.get(
             checkpoint_path=checkpoint_path,
             optimizer=optimizer,
             prefix=prefix,
-- 
2.43.0


From 38309977d5d6cae8b225d21180de80ea8ec90931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 32/73] fix: classes absent from the training data do not turn
 Mahalanobis scores into NaN

---
 fortuna/ood_detection/mahalanobis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/ood_detection/mahalanobis.py b/fortuna/ood_detection/mahalanobis.py
index 93cbc37..235a743 100644
--- a/fortuna/ood_detection/mahalanobis.py
+++ b/fortuna/ood_detection/mahalanobis.py
@@ -156,7 +156,7 @@ class MalahanobisOODClassifier(OutOfDistributionClassifierABC):
             )
 
         self._mean, self._cov = compute_mean_and_joint_cov(
-            embeddings, targets, jnp.arange(self.num_classes)
+            embeddings, targets, jnp.unique(targets)
         )
 
     def score(self, embeddings: Array) -> Array:
-- 
2.43.0


From f82c84c4712828a72528bdde797826f7884c0ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 33/73] fix: kernel regression of constant targets does not
 give NaN

---
 fortuna/kernel_regression/nadaraya_watson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/kernel_regression/nadaraya_watson.py b/fortuna/kernel_regression/nadaraya_watson.py
index 056f679..76c1ec2 100644
--- a/fortuna/kernel_regression/nadaraya_watson.py
+++ b/fortuna/kernel_regression/nadaraya_watson.py
@@ -38,7 +38,8 @@ class NadarayaWatsonKernelRegressor:
             )
         self.train_inputs = jnp.copy(train_inputs)
         self._mean_train_targets = jnp.mean(train_targets)
-        self._std_train_targets = jnp.std(train_targets)
+        std = jnp.std(train_targets)
+        self._std_train_targets = jnp.where(std > 0, std, 1.0)
         self.standardized_train_targets = (
             jnp.copy(train_targets) - self._mean_train_targets
         ) / self._std_train_targets
-- 
2.43.0


From 533ac5b404bf118fdbb3a7d0fc45ee594d1f374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 34/73] fix: a diagonal Gaussian with a scalar mean and a
 vector of deviations has independent entries

---
 fortuna/distribution/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/distribution/gaussian.py b/fortuna/distribution/gaussian.py
index 8c441b7..772ab56 100755
--- a/fortuna/distribution/gaussian.py
+++ b/fortuna/distribution/gaussian.py
@@ -28,7 +28,7 @@ class DiagGaussian(Distribution):
         """
         self.mean = mean
         self.std = std
-        self.dim = 1 if type(mean) in [int, float] else len(mean)
+        self.dim = max(jnp.size(mean), jnp.size(std))
 
     def sample(self, rng: jax.Array, n_samples: int = 1) -> jnp.ndarray:
         """
-- 
2.43.0


From 6c17900067199126d8108cfa0dbc4d963527437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 35/73] fix: models with mutable variables can be calibrated

---
 fortuna/calib_model/loss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1dae209..1f9d3e1 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -93,6 +93,7 @@ class Loss(WithRNG):
                 outputs = outs
 
         aux = dict()
+        outs = outputs
         if self.likelihood.output_calib_manager is not None:
             outs = self.likelihood.output_calib_manager.apply(
                 params=(
-- 
2.43.0


From df9b99ad4ec14327a7152d902797ad6b43a1783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 36/73] fix: the probit approximation accepts plain
 dictionaries of parameters

---
 fortuna/utils/grad.py   | 7 +++++--
 fortuna/utils/probit.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/fortuna/utils/grad.py b/fortuna/utils/grad.py
index d415d22..0c2b6de 100644
--- a/fortuna/utils/grad.py
+++ b/fortuna/utils/grad.py
@@ -6,7 +6,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 from jax import (
     jacrev,
     vmap,
@@ -40,7 +43,7 @@ def value_and_jacobian_squared_row_norm(
     freeze_fun: Optional[Callable[[Tuple[AnyKey, ...], Array], str]] = None,
     top_k: Optional[int] = None,
 ) -> Tuple[Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]], jnp.ndarray]:
-    params = params.unfreeze()
+    params = unfreeze(params)
 
     params_paths = None
     sub_params = None
diff --git a/fortuna/utils/probit.py b/fortuna/utils/probit.py
index fdb6199..a5dc914 100644
--- a/fortuna/utils/probit.py
+++ b/fortuna/utils/probit.py
@@ -6,7 +6,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 from jax import (
     jit,
     jvp,
@@ -66,7 +69,7 @@ def sequential_probit_scaling(
     n_final_tokens: Optional[int] = None,
     stop_gradient: bool = False,
 ) -> Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]]:
-    params = params.unfreeze()
+    params = unfreeze(params)
 
     params_paths = None
     sub_params = None
-- 
2.43.0


From 55777c1dcaa6a1964e493a5f130a83cacd0ce6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 37/73] fix: sequential probit scaling of the top outputs uses
 the final tokens' own indices

---
 fortuna/utils/probit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/utils/probit.py b/fortuna/utils/probit.py
index a5dc914..ab048b6 100644
--- a/fortuna/utils/probit.py
+++ b/fortuna/utils/probit.py
@@ -246,9 +246,9 @@ def sequential_probit_scaling(
         scales = vmap(
             lambda i: vmap(
                 lambda j: scales[i, j]
-                .at[indices[i, j]]
-                .set(diagCs[i, j, indices[i, j]])
-            )(jnp.arange(seq_length - n_final_tokens, seq_length))
+                .at[indices[i, seq_length - n_final_tokens + j]]
+                .set(diagCs[i, j])
+            )(jnp.arange(n_final_tokens))
         )(jnp.arange(batch_size))
     else:
         scales = diagCs
-- 
2.43.0


From c04e1a693fbedde050d222fe2fef209d96dbc961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 38/73] fix: prior log-variance tuning works without and with
 several devices

---
 .../posterior/laplace/laplace_posterior.py      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index 5e6376f..afd7455 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -10,10 +10,8 @@ from typing import (
 )
 
 from flax.core import FrozenDict
-from flax.training.common_utils import (
-    shard,
-    shard_prng_key,
-)
+from flax.jax_utils import replicate
+from flax.training.common_utils import shard_prng_key
 import jax
 from jax import (
     devices,
@@ -492,17 +490,19 @@ class LaplacePosterior(Posterior):
         if distribute:
             rng = shard_prng_key(jax.random.PRNGKey(0))
             val_data_loader = DeviceDimensionAugmentedLoader(val_data_loader)
-            candidates = [shard(c) for c in candidates]
             fn = pmap(self._batched_log_prob, static_broadcasted_argnums=(2,))
+            prepare_fn, collect_fn = replicate, self.joint.likelihood._unshard_array
         else:
+            rng = jax.random.PRNGKey(0)
             fn = jit(self._batched_log_prob, static_argnums=(2,))
+            prepare_fn = collect_fn = lambda v: v
 
         for lpv in tqdm.tqdm(candidates, desc="Tuning prior log-var"):
             neg_log_prob = -jnp.sum(
                 jnp.concatenate(
                     [
-                        self.joint.likelihood._unshard_array(
-                            fn(batch, lpv, n_posterior_samples, rng)
+                        collect_fn(
+                            fn(batch, prepare_fn(lpv), n_posterior_samples, rng)
                         )
                         for batch in val_data_loader
                     ],
@@ -512,5 +512,4 @@ class LaplacePosterior(Posterior):
             if best is None or neg_log_prob < best[-1]:
                 best = (lpv, neg_log_prob)
 
-        opt_prior_log_var = best[0].reshape()
-        return opt_prior_log_var
+        return best[0]
-- 
2.43.0


From e633c74fb8128c1faa278b71c8feb5839ee2edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 39/73] fix: Laplace samples with a diagonal prior and frozen
 parameters

---
 .../posterior/laplace/laplace_posterior.py       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index afd7455..90bb11d 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -331,8 +331,22 @@ class LaplacePosterior(Posterior):
                 which_params,
                 ("mean", "hess_lik_diag"),
             )
+            prior_log_var = state.prior_log_var
+            if jnp.size(prior_log_var) > 1:
+                # keep the log-variances of the parameters in `which_params`
+                log_var_tree = ravel_pytree(mean)[1](prior_log_var)
+                prior_log_var = ravel_pytree(
+                    nested_set(
+                        d={},
+                        key_paths=which_params,
+                        objs=tuple(
+                            [nested_get(log_var_tree, keys) for keys in which_params]
+                        ),
+                        allow_nonexistent=True,
+                    )
+                )[0]
             std = self._compute_std(
-                prior_log_var=state.prior_log_var, hess_lik_diag=hess_lik_diag
+                prior_log_var=prior_log_var, hess_lik_diag=hess_lik_diag
             )
 
             noise = generate_random_normal_like_tree(rng, std)
-- 
2.43.0


From 7d07dcf6d79f1beb214c3ff294cb2952edc25bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 40/73] fix: fitting SGHMC, cyclical SGLD and SNGP does not
 modify the given (or default) configuration

---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py | 4 ++++
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py  | 4 ++++
 fortuna/prob_model/posterior/sngp/sngp_posterior.py           | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 59c945d..6bdfd7e 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 import pathlib
 from typing import Optional
@@ -98,6 +99,9 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in CyclicalSGLD is ignored.")
 
+        # leave the caller's configuration as it is
+        fit_config = copy(fit_config)
+        fit_config.optimizer = copy(fit_config.optimizer)
         fit_config.optimizer.method = cyclical_sgld_integrator(
             rng_key=self.rng.get(),
             init_step_size=self.posterior_approximator.init_step_size,
diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index cb84d46..6580f3b 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 import pathlib
 from typing import Optional
@@ -94,6 +95,9 @@ class SGHMCPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in SGHMC is ignored.")
 
+        # leave the caller's configuration as it is
+        fit_config = copy(fit_config)
+        fit_config.optimizer = copy(fit_config.optimizer)
         fit_config.optimizer.method = sghmc_integrator(
             momentum_decay=self.posterior_approximator.momentum_decay,
             momentum_resample_steps=None,
diff --git a/fortuna/prob_model/posterior/sngp/sngp_posterior.py b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
index fc06714..7bf18ca 100755
--- a/fortuna/prob_model/posterior/sngp/sngp_posterior.py
+++ b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 from typing import Optional
 
@@ -49,6 +50,8 @@ class SNGPPosterior(MAPPosterior):
                 ridge_penalty=self.joint.likelihood.model_manager.ridge_penalty,
             )
         ]
+        # leave the caller's configuration as it is
+        fit_config = copy(fit_config)
         if fit_config.callbacks is None:
             fit_config.callbacks = callbacks
         else:
-- 
2.43.0


From 14ddd7edc0b0321ecdc1d9fa66fa089a3c28ed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 41/73] fix: the user's callbacks run in SGHMC and cyclical
 SGLD

---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py   | 2 +-
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 6bdfd7e..9d8f4aa 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -189,7 +189,7 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[cyclical_sampling_callback],
+            callbacks=(fit_config.callbacks or []) + [cyclical_sampling_callback],
         )
         logging.info("Fit completed.")
 
diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index 6580f3b..c99451e 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -184,7 +184,7 @@ class SGHMCPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[sghmc_sampling_callback],
+            callbacks=(fit_config.callbacks or []) + [sghmc_sampling_callback],
         )
         logging.info("Fit completed.")
 
-- 
2.43.0


From 7b2217982941a69a47aaa37483cbd776861fed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 42/73] fix: deep ensembles with frozen parameters train with
 the given optimizer, not the preliminary run's

---
 .../posterior/deep_ensemble/deep_ensemble_posterior.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index d6fb824..e640abb 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -262,7 +262,9 @@ class DeepEnsemblePosterior(Posterior):
                             ]
                         ),
                     )
-                )
+                ),
+                # train with the given optimizer, not with the one of the preliminary run
+                tx=fit_config.optimizer.method,
             )
 
         return state
-- 
2.43.0


From e58784c220c80762556a08a0888052d460c05c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:50 +0000
Subject: [PATCH 43/73] fix: temperature scaling fits probabilities that
 contain exact zeros

---
 .../temp_scaling/crossentropy_binary_temp_scaling.py         | 4 +++-
 .../binary_classification/temp_scaling/f1_temp_scaling.py    | 4 +++-
 fortuna/calibration/classification/temp_scaling/base.py      | 5 +++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py b/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py
index 6dc8254..7641d5e 100644
--- a/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py
+++ b/fortuna/calibration/binary_classification/temp_scaling/crossentropy_binary_temp_scaling.py
@@ -26,5 +26,7 @@ class CrossEntropyBinaryClassificationTemperatureScaling(
             )
 
         self._temperature = brute(
-            temp_scaling_fn, ranges=[(np.min(probs), 10)], Ns=1000
+            temp_scaling_fn,
+            ranges=[(np.min(probs, where=probs > 0, initial=1.0), 10)],
+            Ns=1000,
         )[0]
diff --git a/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py b/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py
index 3994b15..f1bab3e 100644
--- a/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py
+++ b/fortuna/calibration/binary_classification/temp_scaling/f1_temp_scaling.py
@@ -38,7 +38,9 @@ class F1BinaryClassificationTemperatureScaling(
             return -2 * prec * rec / (prec + rec)
 
         self._temperature = brute(
-            loss_fn, ranges=[(np.min(probs), 1 / threshold)], Ns=1000
+            loss_fn,
+            ranges=[(np.min(probs, where=probs > 0, initial=1.0), 1 / threshold)],
+            Ns=1000,
         )[0]
 
     def predict(self, probs: np.ndarray):
diff --git a/fortuna/calibration/classification/temp_scaling/base.py b/fortuna/calibration/classification/temp_scaling/base.py
index 3c9e64e..1987d19 100644
--- a/fortuna/calibration/classification/temp_scaling/base.py
+++ b/fortuna/calibration/classification/temp_scaling/base.py
@@ -29,11 +29,12 @@ class ClassificationTemperatureScaling(abc.ABC):
         self._check_probs(probs)
         self._check_targets(targets)
         log_probs = np.log(probs)
-        one_hot_targets = np.eye(probs.shape[1])[targets.reshape(-1)]
+        target_idx = (np.arange(len(probs)), targets.reshape(-1))
 
         def temp_scaling_fn(tau):
             log_temp_probs = log_softmax(log_probs / tau, axis=1)
-            return -np.sum(one_hot_targets * log_temp_probs)
+            # index the targets: probabilities of zero elsewhere must not turn the loss into NaN
+            return -np.sum(log_temp_probs[target_idx])
 
         self._temperature = brute(temp_scaling_fn, ranges=[(1e-6, 10)], Ns=1000)[0]
 
-- 
2.43.0


From d97d0bb0044ceef5dbf89949414bd0d2b839060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:44 +0000
Subject: [PATCH 44/73] fix: the focal loss stays finite for confidently wrong
 outputs

---
 fortuna/loss/classification/focal_loss.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fortuna/loss/classification/focal_loss.py b/fortuna/loss/classification/focal_loss.py
index 02a31f6..d8e0479 100644
--- a/fortuna/loss/classification/focal_loss.py
+++ b/fortuna/loss/classification/focal_loss.py
@@ -1,6 +1,6 @@
 from jax.nn import (
+    log_softmax,
     one_hot,
-    softmax,
 )
 import jax.numpy as jnp
 
@@ -30,7 +30,6 @@ def focal_loss_fn(
     jnp.ndarray
         The focal loss evaluation.
     """
-    probs = softmax(outputs, -1)
     targets = one_hot(targets, outputs.shape[-1])
-    probs = jnp.sum(probs * targets, -1)
-    return -jnp.mean((1 - probs) ** gamma * jnp.log(probs))
+    log_probs = jnp.sum(log_softmax(outputs, -1) * targets, -1)
+    return -jnp.mean((1 - jnp.exp(log_probs)) ** gamma * log_probs)
-- 
2.43.0


From 9cb1f11d74441504a7cd8d72509f1ea71470c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:44 +0000
Subject: [PATCH 45/73] fix: output calibrators with mutable variables survive
 more than one calibration step

---
 fortuna/output_calibrator/output_calib_manager/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fortuna/output_calibrator/output_calib_manager/base.py b/fortuna/output_calibrator/output_calib_manager/base.py
index 069e9ec..0f7c1e9 100644
--- a/fortuna/output_calibrator/output_calib_manager/base.py
+++ b/fortuna/output_calibrator/output_calib_manager/base.py
@@ -4,7 +4,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 import flax.linen as nn
 from flax.training.checkpoints import PyTree
 import jax
@@ -68,14 +71,14 @@ class OutputCalibManager(WithRNG):
             rngs = None
 
         if mutable:
-            mutable_variables = mutable.unfreeze()
+            mutable_variables = unfreeze(mutable)
             variables.update(mutable_variables)
             mutable = list(mutable_variables.keys())
         if calib and mutable:
             outputs, mutable = self.output_calibrator.apply(
                 variables, outputs, mutable=mutable, train=calib, rngs=rngs
             )
-            return outputs, {"mutable": mutable}
+            return outputs, mutable
         else:
             return self.output_calibrator.apply(
                 variables, outputs, train=calib, mutable=False, rngs=rngs
-- 
2.43.0


From 7b9b5f9e31ce7822c87969180684ecf38fab0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:41 +0000
Subject: [PATCH 46/73] fix: balancing hallucination data leaves the caller's
 lists alone

---
 fortuna/hallucination/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/hallucination/base.py b/fortuna/hallucination/base.py
index 193628f..2b4c4aa 100644
--- a/fortuna/hallucination/base.py
+++ b/fortuna/hallucination/base.py
@@ -300,6 +300,8 @@ class HallucinationMulticalibrator:
         idx = self.rng.choice(
             idx0 if len_diff > 0 else idx1, np.abs(len_diff), replace=True
         )
+        # do not modify the lists of the caller
+        texts, contexts, targets = list(texts), list(contexts), list(targets)
         for i in idx:
             texts.append(texts[i])
             contexts.append(contexts[i])
-- 
2.43.0


From 3f1a9a51e94d0313eedaf7cd0f9d8992089a3067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:41 +0000
Subject: [PATCH 47/73] fix: grouping tolerates constant embedding features

---
 fortuna/hallucination/grouping/clustering/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/hallucination/grouping/clustering/base.py b/fortuna/hallucination/grouping/clustering/base.py
index da899e9..b2507fc 100644
--- a/fortuna/hallucination/grouping/clustering/base.py
+++ b/fortuna/hallucination/grouping/clustering/base.py
@@ -120,7 +120,9 @@ class GroupingModel:
 
     def _store_embeddings_stats(self, embeddings):
         self._mean = np.mean(embeddings, axis=0, keepdims=True)
-        self._std = np.std(embeddings, axis=0, keepdims=True)
+        std = np.std(embeddings, axis=0, keepdims=True)
+        # constant features carry no information; dividing by zero would make them NaN
+        self._std = np.where(std > 0, std, 1.0)
 
     def _fit_best_model(self, embeddings: np.ndarray, models: List) -> None:
         best_bic = np.inf
-- 
2.43.0


From c217ba2a0c4a55fea766f61eb88e5011c6574691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:04 +0000
Subject: [PATCH 48/73] fix: sequence classification batches are padded to a
 multiple of pad_to_multiple_of

---
 fortuna/data/dataset/huggingface_datasets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/data/dataset/huggingface_datasets.py b/fortuna/data/dataset/huggingface_datasets.py
index ec536e4..6d2db4e 100644
--- a/fortuna/data/dataset/huggingface_datasets.py
+++ b/fortuna/data/dataset/huggingface_datasets.py
@@ -249,6 +249,7 @@ class HuggingFaceSequenceClassificationDataset(HuggingFaceClassificationDatasetA
                 tokenizer=self.tokenizer,
                 padding=self.padding,
                 max_length=self.max_length,
+                pad_to_multiple_of=self.pad_to_multiple_of,
                 return_tensors="np",
             )
         return self._data_collator
-- 
2.43.0


From 9d84f934886af6087deb1a32ef28257f519af59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:04 +0000
Subject: [PATCH 49/73] fix: multiple choice datasets respect max_length and
 padding

---
 fortuna/data/dataset/huggingface_datasets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fortuna/data/dataset/huggingface_datasets.py b/fortuna/data/dataset/huggingface_datasets.py
index 6d2db4e..f8efb1f 100644
--- a/fortuna/data/dataset/huggingface_datasets.py
+++ b/fortuna/data/dataset/huggingface_datasets.py
@@ -318,7 +318,10 @@ class HuggingFaceMultiChoiceDataset(HuggingFaceClassificationDatasetABC):
             first_sentences = sum(first_sentences, [])
             second_sentences = sum(second_sentences, [])
             tokenized_inputs = self.tokenizer(
-                first_sentences, second_sentences, truncation=True
+                first_sentences,
+                second_sentences,
+                max_length=self.max_length,
+                truncation=True,
             )
             tokenized_inputs = {
                 k: [
@@ -342,6 +345,7 @@ class HuggingFaceMultiChoiceDataset(HuggingFaceClassificationDatasetABC):
         if self._data_collator is None:
             self._data_collator = FlaxDataCollatorForMultipleChoice(
                 tokenizer=self.tokenizer,
+                padding=self.padding,
                 max_length=self.max_length,
                 pad_to_multiple_of=self.pad_to_multiple_of,
             )
-- 
2.43.0


From 3560318500320d98ab39c815cad34209634738ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:35 +0000
Subject: [PATCH 50/73] fix: residual networks use the configured activation

---
 fortuna/model/resnet.py     | 2 +-
 fortuna/model/wideresnet.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/model/resnet.py b/fortuna/model/resnet.py
index 25c6046..6dde901 100644
--- a/fortuna/model/resnet.py
+++ b/fortuna/model/resnet.py
@@ -199,7 +199,7 @@ class DeepFeatureExtractorSubNet(nn.Module):
             self.num_filters, (7, 7), (2, 2), padding=[(3, 3), (3, 3)], name="conv_init"
         )(x)
         x = norm(name="bn_init")(x)
-        x = nn.relu(x)
+        x = self.activation(x)
         x = nn.max_pool(x, (3, 3), strides=(2, 2), padding="SAME")
         for i, block_size in enumerate(self.stage_sizes):
             for j in range(block_size):
diff --git a/fortuna/model/wideresnet.py b/fortuna/model/wideresnet.py
index ee91cb1..592230c 100644
--- a/fortuna/model/wideresnet.py
+++ b/fortuna/model/wideresnet.py
@@ -69,12 +69,12 @@ class WideResnetBlock(nn.Module):
         dropout = self.dropout(rate=self.dropout_rate, broadcast_dims=(1, 2))
 
         y = self.norm(name="bn1")(x)
-        y = nn.relu(y)
+        y = self.activation(y)
         if self.dropout_rate > 0.0:
             y = dropout(y, deterministic=not train)
         y = self.conv(self.filters, (3, 3), self.strides, name="conv1")(y)
         y = self.norm(name="bn2")(y)
-        y = nn.relu(y)
+        y = self.activation(y)
         if self.dropout_rate > 0.0:
             y = dropout(y, deterministic=not train)
         y = self.conv(self.filters, (3, 3), name="conv2")(y)
@@ -244,7 +244,7 @@ class DeepFeatureExtractorSubNet(nn.Module):
             dropout_rate=self.dropout_rate,
         )(x, train=train)
         x = norm()(x)
-        x = nn.relu(x)
+        x = self.activation(x)
         x = nn.avg_pool(x, (8, 8))
         x = x.reshape((x.shape[0], -1))
         return x
-- 
2.43.0


From a580e68065d203e3d9ef655d1264015246f2bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:50 +0000
Subject: [PATCH 51/73] fix: gradient clipping and accumulation configured for
 model calibration take effect

---
 fortuna/calib_model/base.py  | 2 ++
 fortuna/calib_model/state.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/fortuna/calib_model/base.py b/fortuna/calib_model/base.py
index 3c5a379..62b39fc 100644
--- a/fortuna/calib_model/base.py
+++ b/fortuna/calib_model/base.py
@@ -145,6 +145,8 @@ class CalibModel(WithCalibCheckpointingMixin, abc.ABC):
             validation_dataset_size=n_val_data,
             verbose=config.monitor.verbose,
             callbacks=config.callbacks,
+            max_grad_norm=config.hyperparameters.max_grad_norm,
+            gradient_accumulation_steps=config.hyperparameters.gradient_accumulation_steps,
         )
         self.predictive.state = CalibStateRepository(
             config.checkpointer.save_checkpoint_dir
diff --git a/fortuna/calib_model/state.py b/fortuna/calib_model/state.py
index 1a4e25c..3a5e941 100644
--- a/fortuna/calib_model/state.py
+++ b/fortuna/calib_model/state.py
@@ -23,6 +23,7 @@ class CalibState(TrainState):
     mutable: Optional[Mutable] = None
     calib_params: Optional[CalibParams] = None
     calib_mutable: Optional[CalibMutable] = None
+    grad_accumulated: Optional[Params] = None
 
     @classmethod
     def init(
-- 
2.43.0


From f790f238abfee49356dbd069b8a2bc29b3bac9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:50 +0000
Subject: [PATCH 52/73] fix: SNGP models from transformers work with the
 dictionaries flax returns

---
 fortuna/model/model_manager/transformers/classification.py | 7 +++++--
 .../sngp/transformers/models/modeling_flax_bert.py         | 4 ++--
 .../sngp/transformers/models/modeling_flax_distilbert.py   | 4 ++--
 .../sngp/transformers/models/modeling_flax_roberta.py      | 4 ++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/fortuna/model/model_manager/transformers/classification.py b/fortuna/model/model_manager/transformers/classification.py
index 7af0118..04938b2 100644
--- a/fortuna/model/model_manager/transformers/classification.py
+++ b/fortuna/model/model_manager/transformers/classification.py
@@ -7,7 +7,10 @@ from typing import (
 )
 
 from flax import linen as nn
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 from flax.training.checkpoints import PyTree
 import jax
 from jax import (
@@ -154,7 +157,7 @@ class SNGPHuggingFaceClassificationModelManager(
         rng, params_key, dropout_key = random.split(rng, 3)
         rngs = {"params": params_key, "dropout": dropout_key}
         gp_params = self._gp_output_model.init(rngs, jnp.zeros(output_shape), **kwargs)
-        params = dict(model=nested_update(self.model.params, gp_params.unfreeze()))
+        params = dict(model=nested_update(self.model.params, unfreeze(gp_params)))
 
         if self.model_editor is not None:
             rng, params_key, dropout_key = random.split(rng, 3)
diff --git a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py
index 4b27cb8..310361e 100644
--- a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py
+++ b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py
@@ -120,8 +120,8 @@ class FlaxSNGPBertExtractorForSequenceClassification(FlaxBertPreTrainedModel):
         )
         random_params = FrozenDict(
             {
-                "spectral_stats": random_params["spectral_stats"].unfreeze(),
-                **random_params["params"].unfreeze(),
+                "spectral_stats": unfreeze(random_params["spectral_stats"]),
+                **unfreeze(random_params["params"]),
             }
         )
 
diff --git a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py
index 25d2821..d04edc9 100644
--- a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py
+++ b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py
@@ -96,8 +96,8 @@ class FlaxSNGPDistilBertExtractorForSequenceClassification(
         )
         random_params = FrozenDict(
             {
-                "spectral_stats": random_params["spectral_stats"].unfreeze(),
-                **random_params["params"].unfreeze(),
+                "spectral_stats": unfreeze(random_params["spectral_stats"]),
+                **unfreeze(random_params["params"]),
             }
         )
         if params is not None:
diff --git a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py
index cf75300..bf5f2a1 100644
--- a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py
+++ b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py
@@ -122,8 +122,8 @@ class FlaxSNGPRobertaExtractorForSequenceClassification(FlaxRobertaPreTrainedMod
         )
         random_params = FrozenDict(
             {
-                "spectral_stats": random_params["spectral_stats"].unfreeze(),
-                **random_params["params"].unfreeze(),
+                "spectral_stats": unfreeze(random_params["spectral_stats"]),
+                **unfreeze(random_params["params"]),
             }
         )
 
-- 
2.43.0


From 38cd9a6d6534e7e0ff33a32066aacc68162239ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:50 +0000
Subject: [PATCH 53/73] fix: spectral normalisation of SNGP transformers is
 updated during training

---
 .../sngp/transformers/models/modeling_flax_bert.py          | 6 ++++--
 .../sngp/transformers/models/modeling_flax_distilbert.py    | 6 ++++--
 .../sngp/transformers/models/modeling_flax_roberta.py       | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py
index 310361e..1df1229 100644
--- a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py
+++ b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_bert.py
@@ -41,7 +41,7 @@ class FlaxSNGPBertExtractorForSequenceClassificationModule(nn.Module, WithSpectr
             if self.config.classifier_dropout is not None
             else self.config.hidden_dropout_prob
         )
-        self.pre_classifier = self.spectral_norm(nn.Dense)(
+        self.pre_classifier = self.spectral_norm(nn.Dense, train=None)(
             self.config.hidden_size,
             dtype=self.dtype,
             kernel_init=jax.nn.initializers.normal(
@@ -79,7 +79,9 @@ class FlaxSNGPBertExtractorForSequenceClassificationModule(nn.Module, WithSpectr
             return_dict=return_dict,
         )
         pooled_output = bert_output[1]  # (bs, dim)
-        pooled_output = self.pre_classifier(pooled_output)  # (bs, dim)
+        pooled_output = self.pre_classifier(
+            pooled_output, update_singular_value_estimate=not deterministic
+        )
         pooled_output = ACT2FN["relu"](pooled_output)
         pooled_output = self.dropout(pooled_output, deterministic=deterministic)
 
diff --git a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py
index d04edc9..cc6baff 100644
--- a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py
+++ b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_distilbert.py
@@ -33,7 +33,7 @@ class FlaxSNGPDistilBertExtractorForSequenceClassificationModule(
 
     def setup(self):
         self.distilbert = FlaxDistilBertModule(config=self.config, dtype=self.dtype)
-        self.pre_classifier = self.spectral_norm(nn.Dense)(
+        self.pre_classifier = self.spectral_norm(nn.Dense, train=None)(
             self.config.dim,
             dtype=self.dtype,
             kernel_init=jax.nn.initializers.normal(
@@ -66,7 +66,9 @@ class FlaxSNGPDistilBertExtractorForSequenceClassificationModule(
         )
         hidden_state = distilbert_output[0]  # (bs, seq_len, dim)
         pooled_output = hidden_state[:, 0]  # (bs, dim)
-        pooled_output = self.pre_classifier(pooled_output)  # (bs, dim)
+        pooled_output = self.pre_classifier(
+            pooled_output, update_singular_value_estimate=not deterministic
+        )
         pooled_output = ACT2FN["relu"](pooled_output)
         pooled_output = self.dropout(pooled_output, deterministic=deterministic)
 
diff --git a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py
index bf5f2a1..c588e21 100644
--- a/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py
+++ b/fortuna/prob_model/posterior/sngp/transformers/models/modeling_flax_roberta.py
@@ -46,7 +46,7 @@ class FlaxSNGPRobertaExtractorForSequenceClassificationModule(
             if self.config.classifier_dropout is not None
             else self.config.hidden_dropout_prob
         )
-        self.pre_classifier = self.spectral_norm(nn.Dense)(
+        self.pre_classifier = self.spectral_norm(nn.Dense, train=None)(
             self.config.hidden_size,
             dtype=self.dtype,
             kernel_init=jax.nn.initializers.normal(
@@ -81,7 +81,9 @@ class FlaxSNGPRobertaExtractorForSequenceClassificationModule(
         )
 
         pooled_output = outputs[1]
-        pooled_output = self.pre_classifier(pooled_output)
+        pooled_output = self.pre_classifier(
+            pooled_output, update_singular_value_estimate=not deterministic
+        )
         pooled_output = nn.tanh(pooled_output)
         pooled_output = self.dropout(pooled_output, deterministic=deterministic)
 
-- 
2.43.0


From 1f78c5d79042bedf9fdab68b1fbeec54dbeda037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:43 +0000
Subject: [PATCH 54/73] fix: finite focal loss gradient for gamma below one on
 confidently correct predictions

---
 fortuna/loss/classification/focal_loss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/loss/classification/focal_loss.py b/fortuna/loss/classification/focal_loss.py
index d8e0479..94dfb53 100644
--- a/fortuna/loss/classification/focal_loss.py
+++ b/fortuna/loss/classification/focal_loss.py
@@ -32,4 +32,6 @@ def focal_loss_fn(
     """
     targets = one_hot(targets, outputs.shape[-1])
     log_probs = jnp.sum(log_softmax(outputs, -1) * targets, -1)
-    return -jnp.mean((1 - jnp.exp(log_probs)) ** gamma * log_probs)
+    # keep the base away from 0, where the gradient of the power is not finite if `gamma < 1`
+    base = jnp.maximum(1 - jnp.exp(log_probs), jnp.finfo(log_probs.dtype).tiny)
+    return -jnp.mean(base**gamma * log_probs)
-- 
2.43.0


From 2f59b727060d8aa28e437224f61c6ecba69104e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:23 +0000
Subject: [PATCH 55/73] fix: band of plot_1d_regression_preds_and_std for
 column-shaped inputs

---
 fortuna/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/plot.py b/fortuna/plot.py
index acdef3a..cb5fd2a 100755
--- a/fortuna/plot.py
+++ b/fortuna/plot.py
@@ -314,7 +314,7 @@ def plot_1d_regression_preds_and_std(
         ax.scatter(*data, s=marker_size_data, color="C0", label="data")
     ax.plot(mesh, mean, color="C1", label="mean")
     ax.fill_between(
-        mesh,
+        np.ravel(mesh),
         (mean - n_std * std).squeeze(1),
         (mean + n_std * std).squeeze(1),
         alpha=0.3,
-- 
2.43.0


From 43af1678f877a3f568ac5139a19bc119dd4e5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:28 +0000
Subject: [PATCH 56/73] fix: share the overflow decision of a dynamic scale
 between devices

---
 fortuna/training/trainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index e0d3490..730ce0f 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -121,7 +121,10 @@ class TrainerABC(
         if state.dynamic_scale is None:
             value_and_grad_fn = value_and_grad
         else:
-            value_and_grad_fn = state.dynamic_scale.value_and_grad
+            value_and_grad_fn = partial(
+                state.dynamic_scale.value_and_grad,
+                axis_name="batch" if self.multi_device else None,
+            )
 
         forward_fun = lambda params: self.training_loss_step(
             loss_fun,
-- 
2.43.0


From d527809f85c51524eeff7912318ad8448bd6504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:28 +0000
Subject: [PATCH 57/73] fix: rebuild the dynamic scale of a restored state

---
 fortuna/prob_model/posterior/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fortuna/prob_model/posterior/state.py b/fortuna/prob_model/posterior/state.py
index de0b030..950f0da 100644
--- a/fortuna/prob_model/posterior/state.py
+++ b/fortuna/prob_model/posterior/state.py
@@ -130,6 +130,10 @@ class PosteriorState(TrainState):
                 ]
             },
         }
+        if isinstance(kwargs.get("dynamic_scale"), dict):
+            kwargs["dynamic_scale"] = dynamic_scale.DynamicScale(
+                **kwargs["dynamic_scale"]
+            )
         return cls.init(
             FrozenDict(d["params"]),
             FrozenDict(d["mutable"]) if d["mutable"] is not None else None,
-- 
2.43.0


From 508a9be597bcdd557fdde576d501bde9503bfd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:28 +0000
Subject: [PATCH 58/73] fix: leave non-finite gradients out of accumulated ones

---
 fortuna/training/trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 730ce0f..162ad51 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -163,6 +163,9 @@ class TrainerABC(
             kwargs.get("gradient_accumulation_steps", 0.0) or 0.0
         )
         if gradient_accumulation_steps > 1:
+            if state.dynamic_scale is not None:
+                # a gradient with Inf/NaNs must not enter the accumulated one
+                grad = tree_map(lambda g: jnp.where(is_fin, g, 0.0), grad)
             new_state = self.params_update_with_grad_accumulation(
                 state, grad, aux, gradient_accumulation_steps, max_grad_norm
             )
-- 
2.43.0


From f3263bb5aeb1e655f04064556387971098911aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:28 +0000
Subject: [PATCH 59/73] fix: restore ensemble members before their repositories
 move

---
 .../deep_ensemble/deep_ensemble_posterior.py       | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index e640abb..f4b9d1b 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -114,13 +114,21 @@ class DeepEnsemblePosterior(Posterior):
         train_data_size = train_data_loader.size
         val_data_size = val_data_loader.size if val_data_loader is not None else None
 
-        def _fit(i):
-            if self._is_state_available_somewhere(fit_config):
-                _state = self._restore_state_from_somewhere(
+        restored_states = None
+        if self._is_state_available_somewhere(fit_config):
+            # restore before the state repositories are pointed to another directory
+            restored_states = [
+                self._restore_state_from_somewhere(
                     i=i,
                     fit_config=fit_config,
                     allowed_states=(MAPState,),
                 )
+                for i in range(self.posterior_approximator.ensemble_size)
+            ]
+
+        def _fit(i):
+            if restored_states is not None:
+                _state = restored_states[i]
             else:
                 _state = self._init_map_state(map_state, train_data_loader, fit_config)
 
-- 
2.43.0


From f6d17dba4da6bf552a35ca322d77ff737002ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:28 +0000
Subject: [PATCH 60/73] fix: initialise missing spreads when ADVI continues
 with other trainable parameters

---
 .../normalizing_flow/advi/advi_posterior.py   | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index cde86b8..d78fac1 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -10,7 +10,14 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
+from flax.traverse_util import (
+    flatten_dict,
+    unflatten_dict,
+)
 import jax
 from jax.flatten_util import ravel_pytree
 import jax.numpy as jnp
@@ -126,6 +133,11 @@ class ADVIPosterior(Posterior):
         else:
             which_params = None
 
+        if log_stds is not None:
+            log_stds = self._init_missing_log_stds(
+                state.params, log_stds, which_params
+            )
+
         rav, self._unravel, sub_unravel, rav_log_stds = self._get_unravel(
             params=state.params, log_stds=log_stds, which_params=which_params
         )
@@ -387,6 +399,25 @@ class ADVIPosterior(Posterior):
 
         return state, log_stds
 
+    def _init_missing_log_stds(
+        self,
+        params: Params,
+        log_stds: Params,
+        which_params: Optional[Tuple[List[AnyKey], ...]],
+    ) -> Params:
+        # parameters that were frozen in the restored state do not have a log-std yet
+        log_stds = flatten_dict(unfreeze(log_stds))
+        for path, value in flatten_dict(unfreeze(params)).items():
+            if path not in log_stds and (
+                which_params is None or list(path) in which_params
+            ):
+                log_stds[
+                    path
+                ] = self.posterior_approximator.std_init_params * jax.random.normal(
+                    self.rng.get(), value.shape
+                )
+        return FrozenDict(unflatten_dict(log_stds))
+
     def _init_advi_from_map_state(
         self,
         rav: Array,
-- 
2.43.0


From 63ecb04f46207cacbb211583c4f2ceb90449e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 61/73] fix: unravel one replica when ADVI on several devices
 is stored

---
 .../normalizing_flow/advi/advi_trainer.py     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
index a2fa161..36e39d7 100644
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
@@ -17,6 +17,7 @@ from fortuna.prob_model.posterior.normalizing_flow.normalizing_flow_state import
 from fortuna.prob_model.posterior.normalizing_flow.normalizing_flow_trainer import (
     NormalizingFlowTrainer,
 )
+from fortuna.training.mixin import WithCheckpointingMixin
 from fortuna.training.trainer import (
     JittedMixin,
     MultiDeviceMixin,
@@ -159,6 +160,25 @@ class JittedADVITrainer(JittedMixin, ADVITrainer):
 
 
 class MultiDeviceADVITrainer(MultiDeviceMixin, ADVITrainer):
+    def save_checkpoint(
+        self,
+        state: ADVIState,
+        save_checkpoint_dir: Path,
+        keep: int = 1,
+        force_save: bool = False,
+        prefix: str = "checkpoint_",
+    ) -> None:
+        # unravel the parameters of one replica, not of all of them stacked
+        state = self._sync_state(state)
+        state = state.replace(
+            params=self._unravel_params(state.params),
+            frozen_params=None,
+            _encoded_which_params=self._encoded_which_params,
+        )
+        WithCheckpointingMixin.save_checkpoint(
+            self, state, save_checkpoint_dir, keep, force_save, prefix
+        )
+
     def on_train_end(self, state: ADVIState) -> ADVIState:
         self.save_checkpoint(
             state,
-- 
2.43.0


From 6dc6a14f9f395c558f5d2c9bcec16cd8bae9bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 62/73] fix: align predictions and targets of ADVI metrics on
 several devices

---
 .../posterior/normalizing_flow/normalizing_flow_trainer.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/normalizing_flow_trainer.py b/fortuna/prob_model/posterior/normalizing_flow/normalizing_flow_trainer.py
index eeb76fc..639539e 100644
--- a/fortuna/prob_model/posterior/normalizing_flow/normalizing_flow_trainer.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/normalizing_flow_trainer.py
@@ -171,7 +171,7 @@ class NormalizingFlowTrainer(PosteriorTrainerABC):
                         metrics,
                     )
                 )(
-                    preds.reshape(
+                    preds.swapaxes(0, 1).reshape(
                         (
                             preds.shape[1],
                             preds.shape[0] * preds.shape[2],
-- 
2.43.0


From 7160501cb028c589ec839600d742e10db1983370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 63/73] fix: return statistics and all parameters of SWAG on
 several devices

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 2601d77..2187cda 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -8,7 +8,6 @@ from typing import (
 )
 
 from flax.core import FrozenDict
-from jax import device_get
 from jax.flatten_util import ravel_pytree
 import jax.numpy as jnp
 from jax.tree_util import tree_map
@@ -154,5 +153,9 @@ class MultiDeviceSWAGTrainer(SWAGMultiDeviceMixin, SWAGTrainer):
             keep=self.keep_top_n_checkpoints,
             force_save=True,
         )
-        state = device_get(tree_map(lambda x: x[0], state))
-        return self._update_state_with_stats(state)
+        state = self._sync_state(self._update_state_with_stats(state))
+        if self.freeze_fun is not None:
+            state = state.replace(
+                params=self._get_all_params(state), frozen_params=None
+            )
+        return state
-- 
2.43.0


From 9ce86012f3d49c573c6bae1c7d205ffa34531789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 64/73] fix: average running statistics over devices at the end
 of training

---
 fortuna/output_calib_model/output_calib_model_calibrator.py    | 1 +
 .../prob_model/posterior/normalizing_flow/advi/advi_trainer.py | 3 +--
 fortuna/training/output_calibrator.py                          | 1 +
 fortuna/training/trainer.py                                    | 2 +-
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index ea53dbd..104ee81 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -599,6 +599,7 @@ class MultiDeviceMixin:
 
     def on_train_end(self, state: OutputCalibState) -> OutputCalibState:
         state = super(MultiDeviceMixin, self).on_train_end(state)
+        state = self.sync_mutable(state)
         return jax.device_get(tree_map(lambda x: x[0], state))
 
     @partial(jax.pmap, axis_name="batch", static_broadcasted_argnums=(0, 4))
diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
index 36e39d7..19c5694 100644
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
@@ -6,7 +6,6 @@ from typing import (
 from flax.core import FrozenDict
 import jax
 from jax.flatten_util import ravel_pytree
-from jax.tree_util import tree_map
 
 from fortuna.data.loader import DataLoader
 from fortuna.prob_model.posterior.normalizing_flow.advi import ADVI_NAME
@@ -187,7 +186,7 @@ class MultiDeviceADVITrainer(MultiDeviceMixin, ADVITrainer):
             force_save=True,
         )
 
-        state = jax.device_get(tree_map(lambda x: x[0], state))
+        state = self._sync_state(state)
         state = state.replace(
             params=self._unravel_params(state.params),
             frozen_params=None,
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 9703392..e4cd128 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -635,6 +635,7 @@ class MultiDeviceMixin:
 
     def on_train_end(self, state: OutputCalibState) -> OutputCalibState:
         state = super(MultiDeviceMixin, self).on_train_end(state)
+        state = self.sync_mutable(state)
         return jax.device_get(tree_map(lambda x: x[0], state))
 
     @partial(jax.pmap, axis_name="batch", static_broadcasted_argnums=(0, 4, 6))
diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 162ad51..debdea5 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -824,7 +824,7 @@ class MultiDeviceMixin:
 
     def on_train_end(self, state: TrainState) -> TrainState:
         state = super(MultiDeviceMixin, self).on_train_end(state)
-        return jax.device_get(tree_map(lambda x: x[0], state))
+        return self._sync_state(state)
 
     def training_step_start(self, rng: jax.Array, step: int) -> jax.Array:
         step = step if isinstance(step, int) or step.ndim == 0 else step[0]
-- 
2.43.0


From ec5e7b08a6a8bac9adec4d7a63f1732f0fe223cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 65/73] fix: save calibration checkpoints every given number of
 steps

---
 fortuna/output_calib_model/output_calib_model_calibrator.py | 6 +++++-
 fortuna/training/output_calibrator.py                       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index 104ee81..ab2d354 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -299,7 +299,7 @@ class OutputCalibModelCalibrator(
         if (
             self.save_checkpoint_dir
             and self.save_every_n_steps
-            and current_epoch % self.save_every_n_steps == 0
+            and self._get_step(state) % self.save_every_n_steps == 0
         ):
             self.save_checkpoint(
                 state, self.save_checkpoint_dir, keep=self.keep_top_n_checkpoints
@@ -445,6 +445,10 @@ class OutputCalibModelCalibrator(
             self.save_checkpoint(state, self.save_checkpoint_dir, force_save=True)
         return val_losses_and_metrics_current_epoch
 
+    def _get_step(self, state: OutputCalibState) -> int:
+        # the state is replicated over devices when there are several
+        return int(state.step[0] if self.multi_device else state.step)
+
     def _get_mean_losses_and_metrics(
         self, losses_and_metrics: List[Dict[str, jnp.ndarray]]
     ) -> Dict[str, float]:
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index e4cd128..89b4c4d 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -287,7 +287,7 @@ class OutputCalibratorABC(
         if (
             self.save_checkpoint_dir
             and self.save_every_n_steps
-            and current_epoch % self.save_every_n_steps == 0
+            and self._get_step(state) % self.save_every_n_steps == 0
         ):
             self.save_checkpoint(
                 state, self.save_checkpoint_dir, keep=self.keep_top_n_checkpoints
@@ -431,6 +431,10 @@ class OutputCalibratorABC(
             self.save_checkpoint(state, self.save_checkpoint_dir, force_save=True)
         return val_losses_and_metrics_current_epoch
 
+    def _get_step(self, state: OutputCalibState) -> int:
+        # the state is replicated over devices when there are several
+        return int(state.step[0] if self.multi_device else state.step)
+
     def _get_mean_losses_and_metrics(
         self, losses_and_metrics: List[Dict[str, jnp.ndarray]]
     ) -> Dict[str, float]:
-- 
2.43.0


From 9574e4f51fbf9bf3ae27043b6a6c391280fdd9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 66/73] fix: do not average outputs nor reshape targets in
 validation metrics on several devices

---
 .../output_calib_model_calibrator.py                | 13 +++++++++----
 fortuna/training/output_calibrator.py               | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index ab2d354..712eb3d 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -645,8 +645,9 @@ class MultiDeviceMixin:
         loss_fun: Callable,
         rng: jax.Array,
     ) -> Dict[str, jnp.ndarray]:
-        val_losses = super().val_loss_step(state, targets, outputs, loss_fun, rng)
-        return lax.pmean(val_losses, axis_name="batch")
+        val_loss, aux = super().val_loss_step(state, targets, outputs, loss_fun, rng)
+        # average the loss only: the outputs of different devices are of different data
+        return lax.pmean(val_loss, axis_name="batch"), aux
 
     def val_metrics_step(
         self,
@@ -657,8 +658,12 @@ class MultiDeviceMixin:
         ] = None,
     ) -> Dict[str, jnp.ndarray]:
         outputs = aux["outputs"]
-        outputs = outputs.reshape(outputs.shape[0] * outputs.shape[1], -1)
-        targets = targets.reshape(targets.shape[0] * targets.shape[1], -1)
+        outputs = outputs.reshape(
+            (outputs.shape[0] * outputs.shape[1],) + outputs.shape[2:]
+        )
+        targets = targets.reshape(
+            (targets.shape[0] * targets.shape[1],) + targets.shape[2:]
+        )
         if metrics is not None:
             val_metrics = self.compute_metrics(
                 self.predict_fn(outputs), self.uncertainty_fn(outputs), targets, metrics
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 89b4c4d..283a9d5 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -683,8 +683,9 @@ class MultiDeviceMixin:
         rng: jax.Array,
         n_data: int,
     ) -> Dict[str, jnp.ndarray]:
-        val_losses = super().val_loss_step(state, batch, outputs, loss_fun, rng, n_data)
-        return lax.pmean(val_losses, axis_name="batch")
+        val_loss, aux = super().val_loss_step(state, batch, outputs, loss_fun, rng, n_data)
+        # average the loss only: the outputs of different devices are of different data
+        return lax.pmean(val_loss, axis_name="batch"), aux
 
     def val_metrics_step(
         self,
@@ -695,8 +696,12 @@ class MultiDeviceMixin:
         ] = None,
     ) -> Dict[str, jnp.ndarray]:
         outputs = aux["outputs"]
-        outputs = outputs.reshape(outputs.shape[0] * outputs.shape[1], -1)
-        targets = batch[1].reshape(batch[1].shape[0] * batch[1].shape[1], -1)
+        outputs = outputs.reshape(
+            (outputs.shape[0] * outputs.shape[1],) + outputs.shape[2:]
+        )
+        targets = batch[1].reshape(
+            (batch[1].shape[0] * batch[1].shape[1],) + batch[1].shape[2:]
+        )
         if metrics is not None:
             val_metrics = self.compute_metrics(
                 self.predict_fn(outputs), self.uncertainty_fn(outputs), targets, metrics
-- 
2.43.0


From f8947305e2b7714c28e320a4554a74b3edfe645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:55 +0000
Subject: [PATCH 67/73] fix: apply the model editor of SNGP models once, on the
 features

---
 fortuna/model/model_manager/classification.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/fortuna/model/model_manager/classification.py b/fortuna/model/model_manager/classification.py
index ba92d3a..64869bc 100644
--- a/fortuna/model/model_manager/classification.py
+++ b/fortuna/model/model_manager/classification.py
@@ -262,21 +262,9 @@ class SNGPClassificationModelManagerMixin:
 
         has_aux = mutable is not None and train
 
-        def apply_fn(p, x):
-            return super(SNGPClassificationModelManagerMixin, self).apply(
-                p, x, deep_feature_extractor_mutable, train, rng
-            )
-
-        if self.model_editor is not None:
-            deep_feature_extractor_outputs = self.model_editor.apply(
-                params["model_editor"],
-                apply_fn=apply_fn,
-                model_params=params,
-                x=inputs,
-                has_aux=has_aux,
-            )
-        else:
-            deep_feature_extractor_outputs = apply_fn(params, inputs)
+        deep_feature_extractor_outputs = super(
+            SNGPClassificationModelManagerMixin, self
+        ).apply(params, inputs, deep_feature_extractor_mutable, train, rng)
 
         variables = params["model"].unfreeze()
         if mutable is not None:
-- 
2.43.0


From 6a099446f508cd123b5b18715f7931a7c36066c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:55 +0000
Subject: [PATCH 68/73] fix: keep running statistics out of the parameters that
 a model editor sees

---
 fortuna/model/model_manager/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/model/model_manager/classification.py b/fortuna/model/model_manager/classification.py
index 64869bc..48659f7 100644
--- a/fortuna/model/model_manager/classification.py
+++ b/fortuna/model/model_manager/classification.py
@@ -63,14 +63,14 @@ class ClassificationModelManager(ModelManager):
         else:
             rngs = None
 
+        mutable_variables = dict()
         if mutable is not None:
             mutable_variables = mutable["model"].unfreeze()
-            variables.update(mutable_variables)
             mutable = list(mutable_variables.keys())
 
         def apply_fn(v, x):
             _outputs = self.model.apply(
-                v,
+                {**v, **mutable_variables},
                 x,
                 mutable=mutable if mutable is not None else False,
                 train=train,
-- 
2.43.0


From d602665dc8d16c407da54b9a7741815fde97792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:55 +0000
Subject: [PATCH 69/73] fix: add up the precision matrices of all devices when
 training SNGP

---
 .../posterior/sngp/sngp_callback.py           | 41 ++++++++++++++++++-
 .../posterior/sngp/sngp_posterior.py          |  1 +
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sngp/sngp_callback.py b/fortuna/prob_model/posterior/sngp/sngp_callback.py
index a9a3198..bb1ade2 100644
--- a/fortuna/prob_model/posterior/sngp/sngp_callback.py
+++ b/fortuna/prob_model/posterior/sngp/sngp_callback.py
@@ -1,8 +1,14 @@
+from typing import (
+    Optional,
+    Sequence,
+)
+
 from flax.core import FrozenDict
 import jax.numpy as jnp
 
 from fortuna.training.callback import Callback
 from fortuna.training.train_state import TrainState
+from fortuna.typing import Array
 from fortuna.utils.nested_dicts import (
     find_one_path_to_key,
     nested_get,
@@ -15,9 +21,15 @@ class ResetCovarianceCallback(Callback):
     Reset, at the beginning of each epoch, the covariance matrix estimated while training an SNGP model.
     """
 
-    def __init__(self, precision_matrix_key_name: str, ridge_penalty: float):
+    def __init__(
+        self,
+        precision_matrix_key_name: str,
+        ridge_penalty: float,
+        momentum: Optional[float] = None,
+    ):
         self.precision_matrix_key_name = precision_matrix_key_name
         self.ridge_penalty = ridge_penalty
+        self.momentum = momentum
 
     def training_epoch_start(self, state: TrainState) -> TrainState:
         key_paths = find_one_path_to_key(state.mutable, self.precision_matrix_key_name)
@@ -34,7 +46,32 @@ class ResetCovarianceCallback(Callback):
             )
             init_precision_matrix = jnp.broadcast_to(init_precision_matrix, (d, n, n))
 
-        partially_updated_mutables = init_precision_matrix
+        return self._replace_precision_matrix(state, key_paths, init_precision_matrix)
+
+    def training_epoch_end(self, state: TrainState) -> TrainState:
+        if self.momentum is not None:
+            return state
+        key_paths = find_one_path_to_key(state.mutable, self.precision_matrix_key_name)
+        precision_matrix = nested_get(state.mutable, key_paths)
+        if precision_matrix.ndim != 3:
+            return state
+        # each device has only added its share of the data to the initial precision matrix
+        d, n, _ = precision_matrix.shape  # num_devices, rows, cols
+        init_precision_matrix = (
+            jnp.eye(n, dtype=precision_matrix.dtype) * self.ridge_penalty
+        )
+        precision_matrix = init_precision_matrix + jnp.sum(
+            precision_matrix - init_precision_matrix, 0
+        )
+        return self._replace_precision_matrix(
+            state, key_paths, jnp.broadcast_to(precision_matrix, (d, n, n))
+        )
+
+    @staticmethod
+    def _replace_precision_matrix(
+        state: TrainState, key_paths: Sequence[str], precision_matrix: Array
+    ) -> TrainState:
+        partially_updated_mutables = precision_matrix
         for key in reversed(key_paths):
             partially_updated_mutables = {key: partially_updated_mutables}
         mutables = nested_update(state.mutable.unfreeze(), partially_updated_mutables)
diff --git a/fortuna/prob_model/posterior/sngp/sngp_posterior.py b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
index 7bf18ca..a5c5e71 100755
--- a/fortuna/prob_model/posterior/sngp/sngp_posterior.py
+++ b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
@@ -48,6 +48,7 @@ class SNGPPosterior(MAPPosterior):
             ResetCovarianceCallback(
                 precision_matrix_key_name="precision_matrix",
                 ridge_penalty=self.joint.likelihood.model_manager.ridge_penalty,
+                momentum=self.joint.likelihood.model_manager.momentum,
             )
         ]
         # leave the caller's configuration as it is
-- 
2.43.0


From dc72ec387986f2dc4fd767b30c537ec2f28b0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:55 +0000
Subject: [PATCH 70/73] fix: start gradient accumulation windows with the
 training run

---
 fortuna/training/trainer.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index debdea5..5cdd113 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -88,6 +88,7 @@ class TrainerABC(
         self.disable_training_metrics_computation = disable_training_metrics_computation
         self.eval_every_n_epochs = eval_every_n_epochs
         self._global_training_step = 0
+        self.accumulation_offset = 0
         self._unravel = None
         self.multi_device = False
         self.freeze_fun = freeze_fun
@@ -222,7 +223,8 @@ class TrainerABC(
             )
 
         new_state = jax.lax.cond(
-            (state.step + 1) % gradient_accumulation_steps == 0,
+            (state.step + 1 - self.accumulation_offset) % gradient_accumulation_steps
+            == 0,
             lambda state: update_fn(state),
             lambda state: state.replace(
                 grad_accumulated=grad_acc, step=state.step + 1, mutable=aux["mutable"]
@@ -382,6 +384,9 @@ class TrainerABC(
         training_losses_and_metrics = collections.defaultdict(list)
         validation_losses_and_metrics = collections.defaultdict(list)
 
+        state = self._start_accumulation(
+            state, training_kwargs.get("gradient_accumulation_steps", 0) or 0
+        )
         state, dataloaders, rng = self.on_train_start(
             state, [training_dataloader, validation_dataloader], rng
         )
@@ -458,6 +463,19 @@ class TrainerABC(
         state = self.on_train_end(state)
         return state, status
 
+    def _start_accumulation(
+        self, state: TrainState, gradient_accumulation_steps: int
+    ) -> TrainState:
+        # accumulation windows start with the training run, whatever a previous run has left
+        self.accumulation_offset = (
+            int(state.step) % gradient_accumulation_steps
+            if gradient_accumulation_steps > 1
+            else 0
+        )
+        if getattr(state, "grad_accumulated", None) is not None:
+            state = state.replace(grad_accumulated=None)
+        return state
+
     def _training_loop(
         self,
         current_epoch: int,
-- 
2.43.0


From 2f7e75e5478c5b0dd0dd4020a3eb0deec968baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:55 +0000
Subject: [PATCH 71/73] fix: clip and accumulate gradients in SWAG when
 configured

---
 fortuna/prob_model/posterior/swag/swag_posterior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/posterior/swag/swag_posterior.py b/fortuna/prob_model/posterior/swag/swag_posterior.py
index d04e58f..f31ed5c 100755
--- a/fortuna/prob_model/posterior/swag/swag_posterior.py
+++ b/fortuna/prob_model/posterior/swag/swag_posterior.py
@@ -165,6 +165,8 @@ class SWAGPosterior(Posterior):
             ),
             verbose=fit_config.monitor.verbose,
             callbacks=fit_config.callbacks,
+            max_grad_norm=fit_config.hyperparameters.max_grad_norm,
+            gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
             **kwargs,
         )
 
-- 
2.43.0


From 0f3cb066b9b554f6852759b44a3bf480f9850197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:13 +0000
Subject: [PATCH 72/73] fix: a calibration can be restored from the folder to
 which it dumped the state

---
 fortuna/prob_model/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fortuna/prob_model/base.py b/fortuna/prob_model/base.py
index 9f9f4e9..077fcc5 100644
--- a/fortuna/prob_model/base.py
+++ b/fortuna/prob_model/base.py
@@ -198,6 +198,13 @@ class ProbModel(abc.ABC):
                     calib_config.checkpointer.restore_checkpoint_path,
                     optimizer=calib_config.optimizer.method,
                 )
+                if not isinstance(state, OutputCalibState):
+                    # with `dump_state`, the checkpoint holds the posterior state
+                    state = OutputCalibState.init(
+                        params=state.calib_params,
+                        mutable=state.calib_mutable,
+                        optimizer=calib_config.optimizer.method,
+                    )
 
             if calib_config.monitor.verbose:
                 logging.info("Start calibration.")
-- 
2.43.0


From b6781693a230d6fd6aa5b156a36bc0a0d4879d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:33 +0000
Subject: [PATCH 73/73] fix: calibrating into the folder that stores the
 posterior state overwrote that state

---
 fortuna/prob_model/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/base.py b/fortuna/prob_model/base.py
index 077fcc5..86625a5 100644
--- a/fortuna/prob_model/base.py
+++ b/fortuna/prob_model/base.py
@@ -1,5 +1,6 @@
 import abc
 import logging
+import os
 from typing import (
     Callable,
     Dict,
@@ -170,12 +171,22 @@ class ProbModel(abc.ABC):
                 disable_jit=calib_config.processor.disable_jit,
             )
 
+            save_checkpoint_dir = calib_config.checkpointer.save_checkpoint_dir
+            state_dir = getattr(self.posterior.state, "checkpoint_dir", None)
+            if (
+                save_checkpoint_dir
+                and state_dir
+                and os.path.realpath(save_checkpoint_dir) == os.path.realpath(state_dir)
+            ):
+                # do not overwrite the posterior state, which is stored there
+                save_checkpoint_dir = os.path.join(save_checkpoint_dir, "calibration")
+
             calibrator = trainer_cls(
                 calib_outputs_loader=calib_ensemble_outputs_loader,
                 val_outputs_loader=val_ensemble_outputs_loader,
                 predict_fn=self.prob_output_layer.predict,
                 uncertainty_fn=uncertainty_fn,
-                save_checkpoint_dir=calib_config.checkpointer.save_checkpoint_dir,
+                save_checkpoint_dir=save_checkpoint_dir,
                 save_every_n_steps=calib_config.checkpointer.save_every_n_steps,
                 keep_top_n_checkpoints=calib_config.checkpointer.keep_top_n_checkpoints,
                 disable_training_metrics_computation=calib_config.monitor.disable_calibration_metrics_computation,
-- 
2.43.0

