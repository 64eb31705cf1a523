From 7b4486a64f4e7a96c920824c2a6e78c99545f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/32] fix: Lanczos repeats a Krylov vector after breakdown

Once the Krylov space is exhausted the previous vector was stored again, so
U S U^T counted its direction several times (e.g. rank > number of parameters).
---
 laplax/curv/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 6273be4..7d04cda 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -66,7 +66,7 @@ def lanczos_iterations(
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-            lambda _: v,  # In degenerate cases, no progress is made.
+            lambda _: jnp.zeros_like(v),  # Krylov space exhausted: add no direction.
             operand=None,
         )
         alpha = alpha.at[i].set(a)
-- 
2.43.0


From 357121e85fc01228061791a94de3dacc3681b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/32] fix: low-rank precision ignores loss_scaling_factor for
 the curvature part

---
 laplax/curv/low_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/low_rank.py b/laplax/curv/low_rank.py
index 411a388..d8bab0e 100644
--- a/laplax/curv/low_rank.py
+++ b/laplax/curv/low_rank.py
@@ -143,7 +143,7 @@ def low_rank_curvature_to_precision(
     U, S, _ = jax.tree.leaves(curv_estimate)
     return LowRankTerms(
         U=U,
-        S=(sigma_squared * S),
+        S=(sigma_squared * S) / loss_scaling_factor,
         scalar=prior_prec / loss_scaling_factor,
     )
 
-- 
2.43.0


From 759601a91fe0d93759b2cfe4c106960a73b15b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 03/32] fix: log-determinant in the low-rank marginal
 log-likelihood

The determinant lemma needs the inverse of the isotropic part and all P (not R)
factors of it, as the docstring states.
---
 laplax/eval/likelihood.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/laplax/eval/likelihood.py b/laplax/eval/likelihood.py
index b25b52b..8d78587 100644
--- a/laplax/eval/likelihood.py
+++ b/laplax/eval/likelihood.py
@@ -235,11 +235,10 @@ def low_rank_marginal_log_likelihood(
     )
 
     # Log det of posterior precision
-    rank = posterior_precision.S.shape[0]
-    log_det_H = rank * jnp.log(posterior_precision.scalar) + jnp.sum(
-        jnp.log(1 + posterior_precision.scalar * posterior_precision.S)
-    )
     param_count = get_size(params)
+    log_det_H = param_count * jnp.log(posterior_precision.scalar) + jnp.sum(
+        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)
+    )
     evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H
 
     # Compute the marginal log-likelihood
-- 
2.43.0


From b05b0e82c701b689cc14be8eed2faf8d74148e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 04/32] fix: grid_search evaluates one point more than
 max_iterations

---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 30b09a2..130ff5c 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -131,7 +131,7 @@ def grid_search(
         previous_result = result
 
         # Check if maximum iterations reached
-        if max_iterations is not None and iteration >= max_iterations:
+        if max_iterations is not None and iteration + 1 >= max_iterations:
             logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
             break
 
-- 
2.43.0


From 1e65942c691da1c5bf965e6b97ee699d85c465e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 05/32] fix: metric evaluation appends to the caller's metrics
 list

---
 laplax/eval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/utils.py b/laplax/eval/utils.py
index 7d3497c..65f3fac 100644
--- a/laplax/eval/utils.py
+++ b/laplax/eval/utils.py
@@ -269,7 +269,7 @@ def evaluate_metrics_on_dataset(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data_point(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
@@ -339,7 +339,7 @@ def evaluate_metrics_on_generator(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
-- 
2.43.0


From ff79350f5beaa53d58d63bd549f7fe752dbf48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 06/32] fix: low-rank solvers leave jax_enable_x64 changed when
 they raise

---
 laplax/curv/lanczos.py |  3 ++-
 laplax/curv/lobpcg.py  |  3 ++-
 laplax/curv/utils.py   | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 7d04cda..118d771 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from laplax.curv.utils import LowRankTerms, get_matvec
+from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64_mode
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -143,6 +143,7 @@ def compute_eigendecomposition(
     return eigvals
 
 
+@restore_x64_mode
 def lanczos_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ee47547..7ba8a53 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -74,7 +74,7 @@ from jax.experimental.sparse.linalg import (
     _mm,  # noqa: PLC2701
 )
 
-from laplax.curv.utils import LowRankTerms, get_matvec
+from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64_mode
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -278,6 +278,7 @@ def _rayleigh_ritz_orth(AS: Array, S: Array) -> tuple[Array, Array]:
     return _eigh_ascending(SAS)
 
 
+@restore_x64_mode
 def lobpcg_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 4c44a20..65458e6 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -2,6 +2,7 @@
 
 from collections.abc import Callable
 from dataclasses import dataclass
+from functools import wraps
 
 import jax
 import jax.numpy as jnp
@@ -50,6 +51,27 @@ jax.tree_util.register_pytree_node(
 )
 
 
+def restore_x64_mode(fn: Callable) -> Callable:
+    """Restore the global `jax_enable_x64` setting when `fn` returns or raises.
+
+    Args:
+        fn: Function that may change the global precision mode.
+
+    Returns:
+        The wrapped function.
+    """
+
+    @wraps(fn)
+    def wrapped(*args, **kwargs):
+        original = jax.config.read("jax_enable_x64")
+        try:
+            return fn(*args, **kwargs)
+        finally:
+            jax.config.update("jax_enable_x64", original)
+
+    return wrapped
+
+
 def get_matvec(
     A: Callable | Array,
     *,
-- 
2.43.0


From 87d63db072b76a0d17b659d16b189bd557c94ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 07/32] fix: calibration bins lose counts for boolean
 correctness

The accumulator took the dtype of `correctness`; the boolean output of the
library's own `correctness` metric saturated each bin at one hit.
---
 laplax/eval/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index af1fc1c..97338ba 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -191,7 +191,7 @@ def calculate_bin_metrics(
 
     bin_counts = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_confidences = jnp.zeros(num_bins, dtype=confidence.dtype)
-    bin_accuracies = jnp.zeros(num_bins, dtype=correctness.dtype)
+    bin_accuracies = jnp.zeros(num_bins, dtype=confidence.dtype)
 
     bin_counts = bin_counts.at[indices].add(1)
     bin_confidences = bin_confidences.at[indices].add(confidence)
-- 
2.43.0


From db317654866eca9824e894e5cac96449bf12fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 08/32] fix: multiclass Brier score has the wrong sign

The documented mean squared difference is never negative.
---
 laplax/eval/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index 97338ba..d48da18 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -158,7 +158,7 @@ def multiclass_brier(prob: Array, target: Array, **kwargs: Kwargs) -> Array:
     preds_squared_sum = jnp.sum(prob**2, axis=-1, keepdims=True)
     score_components = 1 - 2 * prob + preds_squared_sum
 
-    return -jnp.mean(target * score_components)
+    return jnp.mean(target * score_components)
 
 
 def calculate_bin_metrics(
-- 
2.43.0


From 607cf9b30044fcaf4ee0ff68f118c426b8af4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 09/32] fix: Laplace bridge reads the number of classes from
 the wrong axis

The class axis is the leading one throughout; a single prediction of shape [C]
raised an IndexError.
---
 laplax/eval/predictives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index e344cba..16947a9 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -19,7 +19,7 @@ def laplace_bridge(
     Returns:
         The predictive.
     """
-    num_classes = mean.shape[1]
+    num_classes = mean.shape[0]
 
     if use_correction:
         c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)  # [...]
@@ -47,7 +47,7 @@ def dirichlet_predictive(dirichlet_params: jax.Array) -> jax.Array:
     Returns:
         The predictive.
     """
-    predictive = dirichlet_params / jnp.sum(dirichlet_params)  # [C, ...]
+    predictive = dirichlet_params / jnp.sum(dirichlet_params, axis=0)  # [C, ...]
 
     return predictive
 
-- 
2.43.0


From 1ba3d92f3743f0c9c59df1f349c406a1f0ca44ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 10/32] fix: ensemble variance depends on whether the
 covariance was computed

The covariance divided by n - 1 but the variance and standard deviation by n, so
the reported variance changed with the list of pushforward functions.
---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index acac18c..446d8a5 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -301,7 +301,7 @@ def nonlin_pred_cov(
     pred_ensemble = aux["pred_ensemble"]
 
     results["pred_cov"] = util.tree.cov(
-        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False
+        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, bias=True
     )
     return results, aux
 
-- 
2.43.0


From 37347f489c7c16d5b41172600df8b190a6b803e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 11/32] fix: default classification metrics reject the other
 predictive entries

---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 603c0f2..a900a2e 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -528,7 +528,7 @@ def _resolve_metrics(
                 ],
             ),
             apply_fns(
-                lambda pred_mean, pred_std, target: nll_gaussian(
+                lambda pred_mean, pred_std, target, **kwargs: nll_gaussian(  # noqa: ARG005
                     pred_mean,
                     pred_std,
                     jax.nn.one_hot(target, num_classes=pred_mean.shape[-1]),
-- 
2.43.0


From 4e226dcef9de6b01f49cf3f624944379cc0ae446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 12/32] fix: non-linear MC predictive does not provide pred_act

The ECE objective and the default classification metrics read it.
---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index a900a2e..5f87bb9 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -279,6 +279,7 @@ def _setup_pushforward(
             pushforward_fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
             if predictive_type is Predictive.MC_BRIDGE:
                 pushforward_fns.append(nonlin_mc_pred_act)
+                pushforward_fns.append(get_pred_act)
             elif predictive_type in _SPECIAL_PREDICTIVES:
                 msg = (
                     f"{predictive_type.value} not supported for non-linear pushforward."
-- 
2.43.0


From 9455ccb182c755db98c33ab4028eb82786f2db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 13/32] fix: evaluation on a loader drops `reduce` and feeds
 has_batch to metrics

---
 laplax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 5f87bb9..a4e1301 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -964,8 +964,8 @@ def evaluation(
             data_generator=cast("Iterator[Data]", data),
             metrics=metrics_list,
             transform=transform,
-            reduce=jnp.concatenate,
-            has_batch=True,
+            reduce=lambda res: reduce(jnp.concatenate(res)),
+            vmap_over_data=True,
         )
     else:
         results = evaluate_metrics_on_dataset(
-- 
2.43.0


From aeed3baa6df2082c87ea5abe8ed8aa2e7dba8874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 14/32] fix: evaluation drops the first batch of a one-shot
 iterator

---
 laplax/api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index a4e1301..5d056f3 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -13,6 +13,7 @@ Public entry points
 from collections.abc import Iterator
 from enum import StrEnum
 from functools import partial
+from itertools import chain
 from typing import cast
 
 import jax
@@ -954,9 +955,11 @@ def evaluation(
 
     # Evaluate
     is_data_loader = _is_data_loader(data)
-    transform = _validate_and_get_transform(
-        next(iter(data)) if is_data_loader else data
-    )
+    if is_data_loader:
+        batches = iter(data)
+        first = next(batches)
+        data = chain([first], batches)  # Keep the batch of one-shot iterators.
+    transform = _validate_and_get_transform(first if is_data_loader else data)
 
     if is_data_loader:
         results = evaluate_metrics_on_generator(
-- 
2.43.0


From 382f0ed3dbb67c83c37db7fe9cd4090d3abcda9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 15/32] fix: calibration treats a differently-cased "none"
 predictive as classification

---
 laplax/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 5d056f3..e4291f5 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -781,7 +781,9 @@ def calibration(
         - GRID_SEARCH: Grid search over prior precision
     """
     # If task is classification, then no NLL objective
-    is_classification = predictive_type != Predictive.NONE
+    is_classification = (
+        _convert_to_enum(Predictive, predictive_type) is not Predictive.NONE
+    )
 
     # Pushforward construction
     set_pushforward, pushforward_fns = _setup_pushforward(
-- 
2.43.0


From c8cd3a1dcb7c45f766273a6a6c8d750631515736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 16/32] fix: laplace scales the curvature by the inverse of
 total/curv samples

create_ggn_mv and create_hessian_mv give the same two arguments the factor
num_total_samples / num_curv_samples.
---
 laplax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index e4291f5..11fd8b0 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -667,11 +667,11 @@ def laplace(
     curv_type_enum = _convert_to_enum(CurvApprox, curv_type)
 
     # Calculate factor
-    factor = float(num_curv_samples) / float(num_total_samples)
+    factor = float(num_total_samples) / float(num_curv_samples)
     logger.debug(
         "Creating curvature MV - factor = {}/{} = {}",
-        num_curv_samples,
         num_total_samples,
+        num_curv_samples,
         factor,
     )
 
-- 
2.43.0


From 4f5aa75b604dbbfbe34df6eff4de49fc49a3d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 17/32] fix: linearized predictive covariance for outputs of
 rank two or more

The default linear pushforward raised in lin_pred_var for such outputs because
the covariance was not a matrix over the flattened output.
---
 laplax/eval/pushforward.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 446d8a5..d56b7e9 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -662,6 +662,12 @@ def lin_pred_cov(
     pred_mean = results["pred_mean"]
     cov_mv = aux["cov_mv"]
 
+    if pred_mean.ndim > 1:  # Flatten outputs, as in the ensemble pushforward.
+        results["pred_cov"] = util.mv.to_dense(
+            lambda vec: cov_mv(vec).reshape(-1), layout=math.prod(pred_mean.shape)
+        )
+        return results, aux
+
     results["pred_cov"] = util.mv.to_dense(cov_mv, layout=pred_mean)
     return results, aux
 
-- 
2.43.0


From 722e83ebe793bccfed5d7eee291344f76f3beba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 18/32] fix: classification losses in
 concatenate_model_and_loss_fn

The cross-entropy loss was an unsummed sigmoid loss, so no Hessian or marginal
likelihood could be computed with it and it disagreed with the GGN's softmax
loss; the documented binary cross-entropy loss was rejected.
---
 laplax/curv/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 65458e6..9076e0b 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -204,7 +204,19 @@ def concatenate_model_and_loss_fn(
         def loss_wrapper(
             input: InputArray, target: TargetArray, params: Params
         ) -> Num[Array, "..."]:
-            return log_sigmoid_cross_entropy(model_fn(input, params), target)
+            pred = model_fn(input, params)
+            if target.ndim < pred.ndim:  # class indices
+                target = jax.nn.one_hot(target, num_classes=pred.shape[-1])
+            return -jnp.sum(target * jax.nn.log_softmax(pred))
+
+        return loss_wrapper
+
+    if loss_fn == LossFn.BINARY_CROSS_ENTROPY:
+
+        def loss_wrapper(
+            input: InputArray, target: TargetArray, params: Params
+        ) -> Num[Array, "..."]:
+            return jnp.sum(log_sigmoid_cross_entropy(model_fn(input, params), target))
 
         return loss_wrapper
 
-- 
2.43.0


From d43cb48fcc885b3d6d2e325917007041837c973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 19/32] fix: cross-entropy Hessian product for outputs of rank
 two or more

---
 laplax/curv/ggn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/ggn.py b/laplax/curv/ggn.py
index d7050fc..42cb09c 100644
--- a/laplax/curv/ggn.py
+++ b/laplax/curv/ggn.py
@@ -3,6 +3,7 @@
 from collections.abc import Callable
 
 import jax
+import jax.numpy as jnp
 
 from laplax.curv.hessian import hvp
 from laplax.enums import LossFn
@@ -82,7 +83,7 @@ def _cross_entropy_hessian_mv(
     """
     del kwargs
     prob = jax.nn.softmax(pred)
-    off_diag_jv = prob * (prob.reshape(1, -1) @ jv)
+    off_diag_jv = prob * jnp.sum(prob * jv, axis=-1, keepdims=True)
     diag_jv = prob * jv
     return diag_jv - off_diag_jv
 
-- 
2.43.0


From a4d9bb3e825fcd681bfdc2aba808b08526a64da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 20/32] fix: full curvature estimation for an integer layout

---
 laplax/curv/full.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/full.py b/laplax/curv/full.py
index bb1ad12..6979efe 100644
--- a/laplax/curv/full.py
+++ b/laplax/curv/full.py
@@ -48,10 +48,12 @@ def create_full_curvature(
         )
         logger.warning(msg)
         mv_wrapped = mv
+        size = layout
     else:
         flatten, unflatten = create_pytree_flattener(layout)
         mv_wrapped = wrap_function(mv, input_fn=unflatten, output_fn=flatten)
-    curv_estimate = to_dense(mv_wrapped, layout=get_size(layout))
+        size = get_size(layout)
+    curv_estimate = to_dense(mv_wrapped, layout=size)
     return curv_estimate
 
 
-- 
2.43.0


From 0f93e7617cbe6f995553cde88e6301807c29ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 21/32] fix: lobpcg_lowrank stops after rank iterations instead
 of at convergence

---
 laplax/curv/lobpcg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 7ba8a53..ebce750 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -388,7 +388,6 @@ def lobpcg_lowrank(
     eigenvals, eigenvecs, _ = lobpcg_standard(
         A=matmat,
         X=X,
-        m=rank,
         tol=tol,
         calc_dtype=calc_dtype,
         a_dtype=mv_dtype,  # type: ignore  # noqa: PGH003
-- 
2.43.0


From 3ecbbeb6587ac114e5b10aa466ebbcf5d6e445ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 22/32] fix: lobpcg_lowrank raises when the size is exactly
 five times the rank

---
 laplax/curv/lobpcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ebce750..82e7d4b 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -366,7 +366,7 @@ def lobpcg_lowrank(
     matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
 
     # Adjust rank if it's too large compared to problem size
-    if size < rank * 5:
+    if size <= rank * 5:
         rank = max(1, size // 5 - 1)
         msg = f"reduced rank to {rank} due to insufficient size"
         warnings.warn(msg, stacklevel=1)
-- 
2.43.0


From 968e60ba2ba68e7c40592482e5f76a2d714a9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 23/32] fix: low-rank solvers lose requested 64-bit precision
 when calc_dtype is float32

---
 laplax/curv/lanczos.py | 19 +++++++++++--------
 laplax/curv/lobpcg.py  | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 118d771..c7ef966 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -199,18 +199,21 @@ def lanczos_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    # Any of the requested precisions may need 64-bit mode.
+    jax.config.update(
+        "jax_enable_x64",
+        any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),
+    )
 
     # Obtain a uniform matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
 
-    # Wrap to_dtype around mv if necessary.
-    if mv_dtype != calc_dtype:
-        matvec = wrap_function(
-            matvec,
-            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
-        )
+    # Wrap to_dtype around mv.
+    matvec = wrap_function(
+        matvec,
+        input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+        output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+    )
 
     # Initialize starting vector.
     if b is not None:
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 82e7d4b..fd0ec4c 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -357,7 +357,11 @@ def lobpcg_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    # Any of the requested precisions may need 64-bit mode.
+    jax.config.update(
+        "jax_enable_x64",
+        any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),
+    )
 
     # Obtain a matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
@@ -371,13 +375,12 @@ def lobpcg_lowrank(
         msg = f"reduced rank to {rank} due to insufficient size"
         warnings.warn(msg, stacklevel=1)
 
-    # Wrap to_dtype around mv if necessary.
-    if mv_dtype != calc_dtype:
-        matmat = wrap_function(
-            matmat,
-            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
-        )
+    # Wrap to_dtype around mv.
+    matmat = wrap_function(
+        matmat,
+        input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+        output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+    )
 
     # Initialize random search directions
     if key is None:
-- 
2.43.0


From dcd095ea2923ed5d4eb5abeab9aceb1e8dc71661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 24/32] fix: low-rank solvers change the process-wide x64 mode
 under a local x64 context

---
 laplax/curv/lanczos.py | 91 ++++++++++++++++++++----------------------
 laplax/curv/lobpcg.py  | 90 +++++++++++++++++++----------------------
 laplax/curv/utils.py   | 22 ----------
 3 files changed, 86 insertions(+), 117 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index c7ef966..2aed209 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -1,7 +1,8 @@
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 
-from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64_mode
+from laplax.curv.utils import LowRankTerms, get_matvec
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -143,7 +144,6 @@ def compute_eigendecomposition(
     return eigvals
 
 
-@restore_x64_mode
 def lanczos_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
@@ -200,49 +200,46 @@ def lanczos_lowrank(
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
     # Any of the requested precisions may need 64-bit mode.
-    jax.config.update(
-        "jax_enable_x64",
-        any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),
-    )
-
-    # Obtain a uniform matrix-vector multiplication function.
-    matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
-
-    # Wrap to_dtype around mv.
-    matvec = wrap_function(
-        matvec,
-        input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-        output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
-    )
-
-    # Initialize starting vector.
-    if b is not None:
-        b = jnp.asarray(b, dtype=calc_dtype)
-    elif key is not None:
-        b = jax.random.normal(key, (size,), dtype=calc_dtype)
-    else:
-        msg = "Either key or b must be provided"
-        raise ValueError(msg)
-
-    # Run Lanczos iterations.
-    alpha, beta, V = lanczos_iterations(
-        matvec,
-        b,
-        maxiter=rank,
-        tol=tol,
-        full_reorthogonalize=full_reorthogonalize,
-        dtype=calc_dtype,
-        mv_jit=mv_jit,
-    )
-    eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
-
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigvecs, dtype=return_dtype),
-        S=jnp.asarray(eigvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
+    use_x64 = any(d == jnp.float64 for d in (mv_dtype, calc_dtype, return_dtype))
+    with enable_x64(use_x64):
+        # Obtain a uniform matrix-vector multiplication function.
+        matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
+
+        # Wrap to_dtype around mv.
+        matvec = wrap_function(
+            matvec,
+            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+        )
+
+        # Initialize starting vector.
+        if b is not None:
+            b = jnp.asarray(b, dtype=calc_dtype)
+        elif key is not None:
+            b = jax.random.normal(key, (size,), dtype=calc_dtype)
+        else:
+            msg = "Either key or b must be provided"
+            raise ValueError(msg)
+
+        # Run Lanczos iterations.
+        alpha, beta, V = lanczos_iterations(
+            matvec,
+            b,
+            maxiter=rank,
+            tol=tol,
+            full_reorthogonalize=full_reorthogonalize,
+            dtype=calc_dtype,
+            mv_jit=mv_jit,
+        )
+        eigvals, eigvecs = compute_eigendecomposition(
+            alpha, beta, V, compute_vectors=True
+        )
+
+        # Prepare and convert the results
+        low_rank_result = LowRankTerms(
+            U=jnp.asarray(eigvecs, dtype=return_dtype),
+            S=jnp.asarray(eigvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
+        )
+
     return low_rank_result
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index fd0ec4c..f053fa3 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -67,6 +67,7 @@ import warnings
 
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 from jax.experimental.sparse import linalg
 from jax.experimental.sparse.linalg import (
     _check_inputs,  # noqa: PLC2701
@@ -74,7 +75,7 @@ from jax.experimental.sparse.linalg import (
     _mm,  # noqa: PLC2701
 )
 
-from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64_mode
+from laplax.curv.utils import LowRankTerms, get_matvec
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -278,7 +279,6 @@ def _rayleigh_ritz_orth(AS: Array, S: Array) -> tuple[Array, Array]:
     return _eigh_ascending(SAS)
 
 
-@restore_x64_mode
 def lobpcg_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
@@ -358,53 +358,47 @@ def lobpcg_lowrank(
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
     # Any of the requested precisions may need 64-bit mode.
-    jax.config.update(
-        "jax_enable_x64",
-        any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),
-    )
-
-    # Obtain a matrix-vector multiplication function.
-    matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
-
-    # Obtain a matrix-matrix product function.
-    matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
-
-    # Adjust rank if it's too large compared to problem size
-    if size <= rank * 5:
-        rank = max(1, size // 5 - 1)
-        msg = f"reduced rank to {rank} due to insufficient size"
-        warnings.warn(msg, stacklevel=1)
-
-    # Wrap to_dtype around mv.
-    matmat = wrap_function(
-        matmat,
-        input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-        output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
-    )
-
-    # Initialize random search directions
-    if key is None:
-        key = jax.random.key(0)
-    X = jax.random.normal(key, (size, rank), dtype=calc_dtype)
-
-    # Perform LOBPCG for eigenvalues and eigenvectors using the new wrapper
-    eigenvals, eigenvecs, _ = lobpcg_standard(
-        A=matmat,
-        X=X,
-        tol=tol,
-        calc_dtype=calc_dtype,
-        a_dtype=mv_dtype,  # type: ignore  # noqa: PGH003
-        A_jit=mv_jit,
-    )
+    use_x64 = any(d == jnp.float64 for d in (mv_dtype, calc_dtype, return_dtype))
+    with enable_x64(use_x64):
+        # Obtain a matrix-vector multiplication function.
+        matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
+
+        # Obtain a matrix-matrix product function.
+        matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
+
+        # Adjust rank if it's too large compared to problem size
+        if size <= rank * 5:
+            rank = max(1, size // 5 - 1)
+            msg = f"reduced rank to {rank} due to insufficient size"
+            warnings.warn(msg, stacklevel=1)
+
+        # Wrap to_dtype around mv.
+        matmat = wrap_function(
+            matmat,
+            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+        )
 
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigenvecs, dtype=return_dtype),
-        S=jnp.asarray(eigenvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
+        # Initialize random search directions
+        if key is None:
+            key = jax.random.key(0)
+        X = jax.random.normal(key, (size, rank), dtype=calc_dtype)
+
+        # Perform LOBPCG for eigenvalues and eigenvectors using the new wrapper
+        eigenvals, eigenvecs, _ = lobpcg_standard(
+            A=matmat,
+            X=X,
+            tol=tol,
+            calc_dtype=calc_dtype,
+            a_dtype=mv_dtype,  # type: ignore  # noqa: PGH003
+            A_jit=mv_jit,
+        )
 
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
+        # Prepare and convert the results
+        low_rank_result = LowRankTerms(
+            U=jnp.asarray(eigenvecs, dtype=return_dtype),
+            S=jnp.asarray(eigenvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
+        )
 
     return low_rank_result
diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 9076e0b..164231f 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -2,7 +2,6 @@
 
 from collections.abc import Callable
 from dataclasses import dataclass
-from functools import wraps
 
 import jax
 import jax.numpy as jnp
@@ -51,27 +50,6 @@ jax.tree_util.register_pytree_node(
 )
 
 
-def restore_x64_mode(fn: Callable) -> Callable:
-    """Restore the global `jax_enable_x64` setting when `fn` returns or raises.
-
-    Args:
-        fn: Function that may change the global precision mode.
-
-    Returns:
-        The wrapped function.
-    """
-
-    @wraps(fn)
-    def wrapped(*args, **kwargs):
-        original = jax.config.read("jax_enable_x64")
-        try:
-            return fn(*args, **kwargs)
-        finally:
-            jax.config.update("jax_enable_x64", original)
-
-    return wrapped
-
-
 def get_matvec(
     A: Callable | Array,
     *,
-- 
2.43.0


From d058b5cab66c7b6857546e5d05fb0af7d54e75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 25/32] fix: Lanczos reorthogonalisation leaves out the current
 vector

---
 laplax/curv/lanczos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 2aed209..43db885 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -47,11 +47,12 @@ def lanczos_iterations(
     V = V.at[0].set(v0)
 
     def reorthogonalize(w: Array, V: Array, i: int) -> Array:
+        # Include the current vector: it dominates w after (near) exhaustion.
         def body_fn(j: int, w_acc: Array) -> Array:
             coeff = jnp.dot(V[j], w_acc)
             return w_acc - coeff * V[j]
 
-        return jax.lax.fori_loop(0, i, body_fn, w)
+        return jax.lax.fori_loop(0, i + 1, body_fn, w)
 
     # Define a single iteration function to be used in both cases
     @jax.jit
-- 
2.43.0


From 99183c80bc9f32abd91bd285e094179afda3d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 26/32] fix: Lanczos recursion omits the previous direction
 without reorthogonalisation

---
 laplax/curv/lanczos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 43db885..a9c9942 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -58,7 +58,8 @@ def lanczos_iterations(
     @jax.jit
     def iteration_step(v, w, alpha, beta, V, i):
         a = jnp.dot(v, w)
-        w = w - a * v
+        # For i = 0 the last entries of beta and V are still zero.
+        w = w - a * v - beta[i - 1] * V[i - 1]
         if full_reorthogonalize:
             w = reorthogonalize(w, V, i)
             w = reorthogonalize(w, V, i)
-- 
2.43.0


From 57979d5a5e5e6714ddc356fc997bc0f47a9b9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 27/32] fix: dense posterior kernel for outputs of rank two or
 more

---
 laplax/eval/pushforward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index d56b7e9..f3c0e37 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -1009,9 +1009,10 @@ def set_posterior_gp_kernel(
 
     if kwargs.get("dense"):
         output_layout = kwargs.get("output_layout")
-        if output_layout:
+        if output_layout is not None:
             return lambda x1, x2: util.mv.to_dense(
-                lambda v: kernel_mv(v, x1, x2, dist_state), layout=output_layout
+                lambda v: kernel_mv(v, x1, x2, dist_state).reshape(-1),
+                layout=output_layout,
             ), dist_state
         msg = "function should return a dense matrix, but no output layout is specified"
         raise ValueError(msg)
-- 
2.43.0


From df139333ad164376213884b3ea5360eba1149272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 28/32] fix: non-linear special predictives need the variance
 computed beforehand

---
 laplax/eval/pushforward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index f3c0e37..6a5d7a5 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -113,8 +113,9 @@ def special_pred_act(
     if special_pred_type in var_pred_dict:
         pred_fn = var_pred_dict[special_pred_type]
 
-        if "pred_var" not in results:  # Fall back to `lin_pred_var`
-            results, aux = lin_pred_var(results, aux, **kwargs)
+        if "pred_var" not in results:  # Fall back to `(non)lin_pred_var`
+            pred_var_fn = lin_pred_var if linearized else nonlin_pred_var
+            results, aux = pred_var_fn(results, aux, **kwargs)
 
         pred_var = results["pred_var"]
 
-- 
2.43.0


From 0a767a4202108409b12515fceeb8826dbaf8aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 29/32] fix: weight samples reject the precompute option

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 6a5d7a5..d0461aa 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -85,7 +85,7 @@ def set_get_weight_sample(
         precompute=kwargs.get(
             "set_get_weight_sample_precompute", kwargs.get("precompute")
         ),
-        **kwargs,
+        **{k: v for k, v in kwargs.items() if k != "precompute"},
     )
 
 
-- 
2.43.0


From 05123ebefc5851acc8cf7c4481251ce925e6f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 30/32] fix: ensemble covariance of a single sample

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index d0461aa..c89ebf6 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -302,7 +302,7 @@ def nonlin_pred_cov(
     pred_ensemble = aux["pred_ensemble"]
 
     results["pred_cov"] = util.tree.cov(
-        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, bias=True
+        pred_ensemble.reshape(pred_ensemble.shape[0], -1).T, bias=True
     )
     return results, aux
 
-- 
2.43.0


From 274499253395b1ee1201551f6ff7380fbe0d5179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 31/32] fix: registering a callable whose truth value is false
 ignores it

Supplied stage functions are recognised by being given, not by their truth value.
---
 laplax/register.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/laplax/register.py b/laplax/register.py
index 220064e..dc1e5d9 100644
--- a/laplax/register.py
+++ b/laplax/register.py
@@ -92,14 +92,17 @@ def register_curvature_method(
         ValueError: If no default is provided and required functions are missing.
     """
     # Check whether default is given
-    if default is None and not all((
-        create_curvature_fn,
-        curvature_to_precision_fn,
-        prec_to_posterior_fn,
-        posterior_state_to_scale_fn,
-        posterior_state_to_cov_fn,
-        marginal_log_likelihood_fn,
-    )):
+    if default is None and any(
+        fn is None
+        for fn in (
+            create_curvature_fn,
+            curvature_to_precision_fn,
+            prec_to_posterior_fn,
+            posterior_state_to_scale_fn,
+            posterior_state_to_cov_fn,
+            marginal_log_likelihood_fn,
+        )
+    ):
         missing_functions = [
             fn_name
             for fn_name, fn in zip(
@@ -129,19 +132,33 @@ def register_curvature_method(
         )
         raise ValueError(msg)
 
-    CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
+    CURVATURE_METHODS[name] = (
+        CURVATURE_METHODS[default]
+        if create_curvature_fn is None
+        else create_curvature_fn
+    )
     CURVATURE_PRECISION_METHODS[name] = (
-        curvature_to_precision_fn or CURVATURE_PRECISION_METHODS[default]
+        CURVATURE_PRECISION_METHODS[default]
+        if curvature_to_precision_fn is None
+        else curvature_to_precision_fn
     )
     CURVATURE_TO_POSTERIOR_STATE[name] = (
-        prec_to_posterior_fn or CURVATURE_TO_POSTERIOR_STATE[default]
+        CURVATURE_TO_POSTERIOR_STATE[default]
+        if prec_to_posterior_fn is None
+        else prec_to_posterior_fn
     )
     CURVATURE_STATE_TO_SCALE[name] = (
-        posterior_state_to_scale_fn or CURVATURE_STATE_TO_SCALE[default]
+        CURVATURE_STATE_TO_SCALE[default]
+        if posterior_state_to_scale_fn is None
+        else posterior_state_to_scale_fn
     )
     CURVATURE_STATE_TO_COV[name] = (
-        posterior_state_to_cov_fn or CURVATURE_STATE_TO_COV[default]
+        CURVATURE_STATE_TO_COV[default]
+        if posterior_state_to_cov_fn is None
+        else posterior_state_to_cov_fn
     )
     CURVATURE_MARGINAL_LOG_LIKELIHOOD[name] = (
-        marginal_log_likelihood_fn or CURVATURE_MARGINAL_LOG_LIKELIHOOD[default]
+        CURVATURE_MARGINAL_LOG_LIKELIHOOD[default]
+        if marginal_log_likelihood_fn is None
+        else marginal_log_likelihood_fn
     )
-- 
2.43.0


From 2b359ff68e93a38cdd391341824cd4587c6aa26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:00 +0000
Subject: [PATCH 32/32] fix: diagonal of a streamed operator rejects the batch
 size

---
 laplax/util/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/util/loader.py b/laplax/util/loader.py
index 1fdae31..519e11a 100644
--- a/laplax/util/loader.py
+++ b/laplax/util/loader.py
@@ -363,13 +363,13 @@ def _(mv: DataLoaderMV, layout: Layout, **kwargs: Kwargs) -> Array:
 
 
 @diagonal.register
-def _(mv: DataLoaderMV, layout: Layout | None = None) -> Array:
+def _(mv: DataLoaderMV, layout: Layout | None = None, **kwargs: Kwargs) -> Array:
     """Apply diagonal to DataLoaderMV.
 
     Returns:
         The result of applying the function to the data loader.
     """
-    return mv.lower_func(diagonal, layout=layout)
+    return mv.lower_func(diagonal, layout=layout, **kwargs)
 
 
 @wrap_function.register
-- 
2.43.0

