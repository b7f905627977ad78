From 2037668bd1494b62616ec6c97268ec62ba98abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 01/64] fix: KNN-Shapley base case when k_neighbors exceeds the
 training set size

---
 dattri/algorithm/data_shapley.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/data_shapley.py b/dattri/algorithm/data_shapley.py
index 057671f..16a7a95 100644
--- a/dattri/algorithm/data_shapley.py
+++ b/dattri/algorithm/data_shapley.py
@@ -197,8 +197,11 @@ class KNNShapleyAttributor(BaseAttributor):
             leave=False,
         ):
             shapley_values[j, nn_sorting[j, -1]] = (
-                train_labels[nn_sorting[j, -1]] == test_labels[j]
-            ) / num_train_samples
+                int(train_labels[nn_sorting[j, -1]] == test_labels[j])
+                / self.k_neighbors
+                * min([self.k_neighbors, num_train_samples])
+                / num_train_samples
+            )
 
             for i in torch.arange(num_train_samples - 2, -1, -1):
                 shapley_values[j, nn_sorting[j, i]] = shapley_values[
-- 
2.43.0


From ff8ba048f75374c49264cb195b454f705ebd6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 02/64] fix: partial_param must not overwrite the caller's
 parameter dictionary

---
 dattri/func/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ba58561..9cfa6b4 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -309,14 +309,16 @@ def partial_param(
         @functools.wraps(function)
         def _function_partial(*args, **kwargs: Dict[str, Any]) -> torch.Tensor:
             new_args = list(args)
+            # substitute in a copy: full_param is shared with the caller
+            params = dict(full_param)
             index_counter = 0
             for layer in layer_name:
-                length_param = full_param[layer].numel()
-                full_param[layer] = new_args[param_num][
+                length_param = params[layer].numel()
+                params[layer] = new_args[param_num][
                     index_counter : index_counter + length_param
                 ]
                 index_counter += length_param
-            new_args[param_num] = flatten_params(full_param)
+            new_args[param_num] = flatten_params(params)
             return function(*new_args, **kwargs)
 
         return _function_partial
-- 
2.43.0


From 0a4c837480e49bf002a9b8b727c00dc9558e7822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 03/64] fix: accept a single layer name given as a string

---
 dattri/func/utils.py | 11 +++++++----
 dattri/task.py       |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index 9cfa6b4..6319ed5 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -9,7 +9,7 @@ import numpy as np
 
 if TYPE_CHECKING:
     from collections.abc import Callable
-    from typing import Any, Dict, Optional, Tuple
+    from typing import Any, Dict, Optional, Tuple, Union
 
 import functools
 
@@ -276,7 +276,7 @@ def flatten_func(model: torch.nn.Module, param_num: int = 0) -> Callable:
 
 def partial_param(
     full_param: Dict[str, Tensor],
-    layer_name: List[str],
+    layer_name: Union[str, List[str]],
     param_num: int = 0,
 ) -> Callable:
     """A decorator that edit a function from taking full parameter to partial parameter.
@@ -286,8 +286,8 @@ def partial_param(
 
     Args:
         full_param: A dictionary of full parameters.
-        layer_name: A list of layer names to that will be left as
-            parameter input of the function.
+        layer_name: A layer name or a list of layer names to that will be left
+            as parameter input of the function.
         param_num: The index of the parameter in function's input.
 
     Returns:
@@ -295,6 +295,9 @@ def partial_param(
             partial parameter.
     """
 
+    if isinstance(layer_name, str):
+        layer_name = [layer_name]
+
     def partial_param_wrapper(function: Callable) -> Callable:
         """A wrapper function that edit the parameter from full to partial.
 
diff --git a/dattri/task.py b/dattri/task.py
index fc57f3c..0152551 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -425,6 +425,9 @@ class AttributionTask:
         """
         self._load_checkpoints(ckpt_idx)
 
+        if isinstance(layer_name, str):
+            layer_name = [layer_name]
+
         if layer_name is not None:
             named_parameters = {
                 k: self.named_parameters[k]
-- 
2.43.0


From 2d4b9b38f99ce75f618b59d89bcb0a2865240a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 04/64] fix: conjugate gradient honours tol instead of
 returning NaN after convergence

---
 dattri/func/hessian.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index f2fc444..32612b2 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -400,7 +400,7 @@ def ihvp_at_x_cg(
     *x,
     argnums: int = 0,
     max_iter: int = 10,
-    tol: float = 1e-7,  # noqa: ARG001
+    tol: float = 1e-7,
     mode: str = "rev-rev",
     regularization: float = 0.0,
 ) -> Callable:
@@ -470,16 +470,18 @@ def ihvp_at_x_cg(
             d = d_pre = g_pre
 
             for _ in range(max_iter):
-                # TODO: add tol for residual, it has not been supported by vmap.
-                # https://pytorch.org/docs/main/generated/torch.cond.html#torch.cond
-                # Still in prototype stage.
+                # early break is not supported by vmap, so a converged residual is
+                # frozen instead: iterating on it further would divide 0 by 0.
+                converged = torch.norm(g_pre) < tol
 
                 ad = hvp_at_x_func(d)
                 alpha = torch.dot(g_pre, d_pre) / torch.dot(d, ad)
+                alpha = torch.where(converged, torch.zeros_like(alpha), alpha)
                 ihvp_res += alpha * d
                 g = g_pre - alpha * ad
 
                 beta = torch.dot(g, g) / torch.dot(g_pre, g_pre)
+                beta = torch.where(converged, torch.zeros_like(beta), beta)
 
                 g_pre = d_pre = g
                 d = g + beta * d
-- 
2.43.0


From 9b7cff6b435e95d9850bc407bc2ea0b20d290959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 05/64] fix: ArnoldiProjector drops non-positive eigenvalues as
 its warning announces

---
 dattri/func/projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d06f2e0..d9b48f8 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1030,9 +1030,12 @@ class ArnoldiProjector(AbstractProjector):
         self.eigvals, self.eigvecs = self._distill(appr_mat, proj, self.proj_dim)
 
         # prevent from negative eigvals
-        if self.proj_dim > torch.sum(self.eigvals > self.tol**2):
+        positive = self.eigvals > self.tol**2
+        if self.proj_dim > torch.sum(positive):
             # adjust proj_dim
-            self.proj_dim = torch.sum(self.eigvals > self.tol**2).item()
+            self.proj_dim = torch.sum(positive).item()
+            self.eigvals = self.eigvals[positive]
+            self.eigvecs = self.eigvecs[positive]
             warnings.warn(
                 "Encountered many negative eigenvalues and `proj_dim` is greater"
                 " than the number of positive eigenvalues. Automatically adjusting"
-- 
2.43.0


From 6f46bc3943d7ec653380bb13d0450260fa10d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 06/64] fix: re-orthogonalise Arnoldi vectors (garbage
 eigenvalues when the Hessian is close to a multiple of the identity)

---
 dattri/func/hessian.py    | 10 +++++++---
 dattri/func/projection.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 32612b2..bd85b4c 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -660,9 +660,13 @@ def ihvp_at_x_arnoldi(
         for n in range(n_iters - 1):
             h_vec = hvp_func(proj[n])
 
-            for j, proj_vec in enumerate(proj):
-                appr_mat[j][n] = torch.dot(h_vec, proj_vec) / norm_constant**2
-                h_vec -= appr_mat[j][n] * proj_vec
+            # orthogonalise twice: one pass loses orthogonality when new_norm is small
+            # compared to the norm of h_vec
+            for _ in range(2):
+                for j, proj_vec in enumerate(proj):
+                    coef = torch.dot(h_vec, proj_vec) / norm_constant**2
+                    appr_mat[j][n] += coef
+                    h_vec -= coef * proj_vec
 
             new_norm = torch.norm(h_vec)
             if new_norm < tol:
diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d9b48f8..bcb17c3 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -951,9 +951,13 @@ class ArnoldiProjector(AbstractProjector):
         for n in range(n_iters - 1):
             h_vec = hvp_func(proj[n])
 
-            for j, proj_vec in enumerate(proj):
-                appr_mat[j][n] = torch.dot(h_vec, proj_vec) / norm_constant**2
-                h_vec -= appr_mat[j][n] * proj_vec
+            # orthogonalise twice: one pass loses orthogonality when new_norm is small
+            # compared to the norm of h_vec
+            for _ in range(2):
+                for j, proj_vec in enumerate(proj):
+                    coef = torch.dot(h_vec, proj_vec) / norm_constant**2
+                    appr_mat[j][n] += coef
+                    h_vec -= coef * proj_vec
 
             new_norm = torch.norm(h_vec)
             if new_norm < tol:
-- 
2.43.0


From 57ff1d6adf85cf7754a62b1d817d9ce56be5b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 07/64] fix: Arnoldi iteration is independent of norm_constant

---
 dattri/func/hessian.py    | 4 ++--
 dattri/func/projection.py | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index bd85b4c..eb220ff 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -654,7 +654,7 @@ def ihvp_at_x_arnoldi(
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -742,7 +742,7 @@ def ihvp_at_x_arnoldi(
             tol,
             v.device,
         )
-        eigvals, eigvecs = _distill(appr_mat, proj, top_k)
+        eigvals, eigvecs = _distill(appr_mat, proj / norm_constant, top_k)
 
         return ((v @ eigvecs.T) * 1.0 / eigvals.unsqueeze(0)) @ eigvecs
 
diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index bcb17c3..4fa4ff2 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -945,7 +945,7 @@ class ArnoldiProjector(AbstractProjector):
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -1031,7 +1031,11 @@ class ArnoldiProjector(AbstractProjector):
 
         # get top k eigenvalues/vectors and cache
         # proj dim is the value of k
-        self.eigvals, self.eigvecs = self._distill(appr_mat, proj, self.proj_dim)
+        self.eigvals, self.eigvecs = self._distill(
+            appr_mat,
+            proj / self.norm_constant,
+            self.proj_dim,
+        )
 
         # prevent from negative eigvals
         positive = self.eigvals > self.tol**2
-- 
2.43.0


From 89334be22a65cf984bb2218e2bd14bef4208ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 08/64] fix: Arnoldi influence caching of tuple and dict
 batches

---
 dattri/algorithm/influence_function.py | 35 +++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0033745..39f74b0 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -390,23 +390,28 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
                 break
             data_target_pair_list.append(batch)
 
-        # concatenate all data
-        data_target_pair = data_target_pair_list[0]
-        for batch_idx in range(1, len(data_target_pair_list)):
-            for data_item_idx in range(len(data_target_pair_list[0])):
-                data_target_pair[data_item_idx] = torch.cat(
-                    (
-                        data_target_pair[data_item_idx],
-                        data_target_pair_list[batch_idx][data_item_idx],
-                    ),
-                    dim=0,
+        # concatenate all data and move to device (only once for all data)
+        first_batch = data_target_pair_list[0]
+        if isinstance(first_batch, (tuple, list)):
+            data_target_pair = tuple(
+                torch.cat([batch[i] for batch in data_target_pair_list], dim=0).to(
+                    self.device,
                 )
-
-        # to device (only once for all data)
-        for data_item_idx in range(len(data_target_pair)):
-            data_target_pair[data_item_idx] = data_target_pair[data_item_idx].to(
-                self.device,
+                for i in range(len(first_batch))
+            )
+        elif isinstance(first_batch, dict):
+            data_target_pair = {
+                k: torch.cat([batch[k] for batch in data_target_pair_list], dim=0).to(
+                    self.device,
+                )
+                for k in first_batch
+            }
+        else:
+            msg = (
+                "We currently only support the train/test data to be "
+                "tuple, list, or dict."
             )
+            raise TypeError(msg)
 
         from dattri.func.projection import arnoldi_project
 
-- 
2.43.0


From 8dec7377bff6d8a560fe01aba614853f218ece34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 09/64] fix: rev-fwd hvp for non-tensor and non-default-dtype
 arguments (LiSSA attributor with mode=rev-fwd)

---
 dattri/func/hessian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index eb220ff..8338327 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -26,6 +26,7 @@ if TYPE_CHECKING:
 import torch
 from torch import Tensor
 from torch.func import grad, hessian, jvp, vjp, vmap
+from torch.utils._pytree import tree_map
 
 
 def hvp(
@@ -109,7 +110,7 @@ def hvp(
                 v_patched = []
                 for i in range(len(x)):
                     if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
+                        v_patched.append(tree_map(torch.zeros_like, x[i]))
                     else:
                         v_patched.append(v)
                 v_patched = tuple(v_patched)
@@ -210,7 +211,7 @@ def hvp_at_x(
                 v_patched = []
                 for i in range(len(x)):
                     if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
+                        v_patched.append(tree_map(torch.zeros_like, x[i]))
                     else:
                         v_patched.append(v)
                 v_patched = tuple(v_patched)
-- 
2.43.0


From 5ec09c30cc3a1b9e9f97c0139c94ff3d90b25bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 10/64] fix: ihvp_at_x_lissa passed num_repeat and batch_size
 in each other's place

---
 dattri/func/hessian.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 8338327..394c4b2 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -995,14 +995,14 @@ def ihvp_at_x_lissa(
         """
         ihvp_lissa_func = ihvp_lissa(
             func,
-            argnums,
-            num_repeat,
-            batch_size,
-            recursion_depth,
-            damping,
-            scaling,
-            collate_fn,
-            mode,
+            argnums=argnums,
+            batch_size=batch_size,
+            num_repeat=num_repeat,
+            recursion_depth=recursion_depth,
+            damping=damping,
+            scaling=scaling,
+            collate_fn=collate_fn,
+            mode=mode,
         )
         return ihvp_lissa_func(x, v, in_dims=in_dims)
 
-- 
2.43.0


From 0567f1e59f5275e91a0906986a168cf1d617f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 11/64] fix: LiSSA influence with dict batches

---
 dattri/algorithm/influence_function.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 39f74b0..04875cc 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -581,9 +581,22 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
                 )
                 raise TypeError(msg)
 
+            collate_fn = IFAttributorLiSSA.lissa_collate_fn
+            if isinstance(full_data, dict):
+                # the sampler takes tensors: rebuild the dict after sampling
+                keys = tuple(full_data.keys())
+                full_data = tuple(full_data.values())
+
+                def collate_fn(
+                    sampled_input: List[Tensor],
+                    keys: Tuple[str, ...] = keys,
+                ) -> Tuple[Tensor, dict]:
+                    params, data = IFAttributorLiSSA.lissa_collate_fn(sampled_input)
+                    return params, dict(zip(keys, data))
+
             self.ihvp_func = ihvp_lissa(
                 self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),
-                collate_fn=IFAttributorLiSSA.lissa_collate_fn,
+                collate_fn=collate_fn,
                 **self.transformation_kwargs,
             )
             vector_product += self.ihvp_func(
-- 
2.43.0


From f469111fdad3933b87435c36ea255b5c2ede4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 12/64] fix: an uncached attribute call must not fix the full
 training set of later calls

---
 dattri/algorithm/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 66ccd2f..ed896b1 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -91,6 +91,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         self.device = device
         self.layer_name = layer_name
         self.full_train_dataloader = None
+        self._full_train_not_cached = False
 
     def _set_test_data(self, dataloader: torch.utils.data.DataLoader) -> None:
         """Set test dataloader.
@@ -118,6 +119,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         """
         # This function may be overridden by the subclass
         self.full_train_dataloader = dataloader
+        self._full_train_not_cached = False
 
     def generate_test_rep(
         self,
@@ -319,8 +321,10 @@ class BaseInnerProductAttributor(BaseAttributor):
 
         """
         super().attribute(train_dataloader, test_dataloader)
-        if self.full_train_dataloader is None:
+        if self.full_train_dataloader is None or self._full_train_not_cached:
+            # only for this call: a later call may bring other training data
             self.full_train_dataloader = train_dataloader
+            self._full_train_not_cached = True
             warnings.warn(
                 "The full training data loader was NOT cached. \
                            Treating the train_dataloader as the full training \
@@ -481,8 +485,10 @@ class BaseInnerProductAttributor(BaseAttributor):
         """
         test_dataloader = train_dataloader
         super().attribute(train_dataloader, test_dataloader)
-        if self.full_train_dataloader is None:
+        if self.full_train_dataloader is None or self._full_train_not_cached:
+            # only for this call: a later call may bring other training data
             self.full_train_dataloader = train_dataloader
+            self._full_train_not_cached = True
             warnings.warn(
                 "The full training data loader was NOT cached. \
                            Treating the train_dataloader as the full training \
-- 
2.43.0


From ca6c28e8f7de15b89a244a46aab243ec4bdb0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 13/64] fix: self_attribute of inner-product attributors scores
 every sample with its own batch

---
 dattri/algorithm/base.py | 54 +++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index ed896b1..8c39693 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -506,7 +506,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         for checkpoint_idx in range(len(self.task.get_checkpoints())):
             # Multiply by current index to prepare for running average
             tda_output *= checkpoint_idx
-            for _, train_batch_data_ in enumerate(
+            for train_batch_idx, train_batch_data_ in enumerate(
                 tqdm(
                     train_dataloader,
                     desc="calculating gradient of training set...",
@@ -558,36 +558,32 @@ class BaseInnerProductAttributor(BaseAttributor):
                     train_rep=train_batch_rep,
                 )
 
-                for _, _ in enumerate(
-                    tqdm(
-                        test_dataloader,
-                        desc="calculating gradient of test set...",
-                        leave=False,
-                    ),
-                ):
-                    # move to device
-                    test_batch_data = train_batch_data
-                    # get initial representations of test data
-                    test_batch_rep = self.generate_test_rep(
-                        ckpt_idx=checkpoint_idx,
-                        data=test_batch_data,
-                    )
-                    # transform the test representations
-                    test_batch_rep = self.transform_test_rep(
-                        ckpt_idx=checkpoint_idx,
-                        test_rep=test_batch_rep,
-                    )
-                influence_values = (
-                    torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
-                    / denom.unsqueeze(-1)
-                    if denom is not None
-                    else torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
+                # get initial representations of the same data as test data
+                test_batch_rep = self.generate_test_rep(
+                    ckpt_idx=checkpoint_idx,
+                    data=train_batch_data,
                 )
-
-                tda_output += (
-                    # Accumulate influence values across checkpoints
-                    influence_values
+                # transform the test representations
+                test_batch_rep = self.transform_test_rep(
+                    ckpt_idx=checkpoint_idx,
+                    test_rep=test_batch_rep,
+                )
+                influence_values = torch.einsum(
+                    "ij,ij->i",
+                    train_batch_rep,
+                    test_batch_rep,
+                )
+                if denom is not None:
+                    influence_values /= denom
+
+                # results position based on batch info
+                row_st = train_batch_idx * train_dataloader.batch_size
+                row_ed = min(
+                    (train_batch_idx + 1) * train_dataloader.batch_size,
+                    len(train_dataloader.sampler),
                 )
+                # Accumulate influence values across checkpoints
+                tda_output[row_st:row_ed] += influence_values
             tda_output /= (
                 checkpoint_idx + 1
             )  # Calculate running average by dividing by number of checkpoints
-- 
2.43.0


From 57d2a07f2c2c0e51963a7eae501d671de827f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 14/64] fix: ArnoldiProjector nulls non-positive directions and
 keeps its output width

---
 dattri/func/projection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 4fa4ff2..f4bbee9 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1042,8 +1042,9 @@ class ArnoldiProjector(AbstractProjector):
         if self.proj_dim > torch.sum(positive):
             # adjust proj_dim
             self.proj_dim = torch.sum(positive).item()
-            self.eigvals = self.eigvals[positive]
-            self.eigvecs = self.eigvecs[positive]
+            # null the other directions, the output keeps its number of columns
+            self.eigvals = torch.where(positive, self.eigvals, 1.0)
+            self.eigvecs = self.eigvecs * positive.unsqueeze(1)
             warnings.warn(
                 "Encountered many negative eigenvalues and `proj_dim` is greater"
                 " than the number of positive eigenvalues. Automatically adjusting"
-- 
2.43.0


From 356e3fd36aaff703b0903ac881362f193f6be409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 15/64] fix: EK-FAC statistics for sequence inputs and for
 functions returning a mask

---
 dattri/func/fisher.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index fe879dd..2754201 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -264,20 +264,21 @@ def _update_covariance(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
+        a_prev = a_prev_raw
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
 
         a_prev_masked = a_prev * mask[..., None].to(a_prev.device)
 
         # Calculate batch covariance matrix for A
-        a_prev_reshaped = a_prev_masked.view(-1, a_prev.size(-1))
+        a_prev_reshaped = a_prev_masked.reshape(-1, a_prev.size(-1))
         batch_cov_a = a_prev_reshaped.transpose(0, 1) @ a_prev_reshaped
         batch_cov_a /= batch_samples
 
         # Calculate batch covariance matrix for S
         ds_curr = s_curr_raw.grad
 
-        ds_curr_reshaped = ds_curr.view(-1, s_curr_raw.size(-1))
+        ds_curr_reshaped = ds_curr.reshape(-1, s_curr_raw.size(-1))
         batch_cov_s = ds_curr_reshaped.transpose(0, 1) @ ds_curr_reshaped
         batch_cov_s /= batch_samples
 
@@ -334,6 +335,7 @@ def _update_lambda(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
+        a_prev = a_prev_raw
         ds_curr = s_curr_raw.grad
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
@@ -425,8 +427,9 @@ def estimate_covariance(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
@@ -520,8 +523,9 @@ def estimate_lambda(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
-- 
2.43.0


From 2adc98fd873c325a67ff380327d415c0571becb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 16/64] fix: EK-FAC rotates into the eigenbasis (eigenvectors
 are the columns)

---
 dattri/algorithm/influence_function.py | 2 +-
 dattri/func/fisher.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 04875cc..fbce567 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1102,7 +1102,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             _lambda = self.cached_lambdas[name]
             q_a, q_s = self.cached_q[name]
 
-            _ifvp = q_s.T @ ((q_s @ _v @ q_a.T) / (_lambda + self.damping)) @ q_a
+            _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
             ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 2754201..dd6c7b7 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -367,7 +367,7 @@ def _update_lambda(
         # An equivalent way to calculate lambda's. Please refer to
         # https://math.stackexchange.com/questions/1879933/vector-multiplication-with-multiple-kronecker-products
         q_a, q_s = cached_q[layer_name]
-        batch_lambda = torch.square(q_s @ batch_dtheta @ q_a.T).mean(axis=0)
+        batch_lambda = torch.square(q_s.T @ batch_dtheta @ q_a).mean(axis=0)
 
         # Update the running eigenvalue estimation
         if layer_name in curr_estimate:
-- 
2.43.0


From 538d9bcacb00f058490d1b321fee1b7bc342b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 17/64] fix: EK-FAC aligns bias gradients with the bias column
 of the covariances

---
 dattri/algorithm/influence_function.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index fbce567..81ade18 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1086,16 +1086,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
 
         for name in self.module_name:
             if self.name_to_module[name].bias is not None:
-                dim_out = layer_test_rep[name + ".weight"].shape[1]
-                dim_in = layer_test_rep[name + ".weight"].shape[2] + 1
+                # the bias is the last input column, as in the cached covariances
                 _v = torch.cat(
                     [
-                        layer_test_rep[name + ".weight"].flatten(start_dim=1),
-                        layer_test_rep[name + ".bias"].flatten(start_dim=1),
+                        layer_test_rep[name + ".weight"],
+                        layer_test_rep[name + ".bias"].unsqueeze(-1),
                     ],
                     dim=-1,
                 )
-                _v = _v.reshape(-1, dim_out, dim_in)
             else:
                 _v = layer_test_rep[name + ".weight"]
 
@@ -1103,7 +1101,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             q_a, q_s = self.cached_q[name]
 
             _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
-            ifvp[name] = _ifvp.flatten(start_dim=1)
+            if self.name_to_module[name].bias is not None:
+                # back to the parameter order: weight, then bias
+                ifvp[name] = torch.cat(
+                    [_ifvp[..., :-1].flatten(start_dim=1), _ifvp[..., -1]],
+                    dim=-1,
+                )
+            else:
+                ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
         transformed_test_rep_layers = [ifvp[name] for name in self.module_name]
-- 
2.43.0


From 479e845f481bf0d7f3910f0c4d87d2fcd53f2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 18/64] fix: EK-FAC cache uses the loss function and leaves no
 hooks or gradients behind

---
 dattri/algorithm/influence_function.py | 53 ++++++++++++++------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 81ade18..20f09e2 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1011,32 +1011,35 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             mod = self.task.model.get_submodule(name)
             handles.append(mod.register_forward_hook(_ekfac_hook))
 
-        func = partial(self.task.get_target_func(), self.task.get_param()[0])
-        # 1. Use random batch to estimate covariance matrices S and A
-        cov_matrices = estimate_covariance(
-            func,
-            full_train_dataloader,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
-
-        # 2. Calculate the eigenvalue decomposition of S and A
-        self.cached_q = estimate_eigenvector(cov_matrices)
-
-        # 3. Use random batch for eigenvalue correction
-        self.cached_lambdas = estimate_lambda(
-            func,
-            full_train_dataloader,
-            self.cached_q,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
+        try:
+            # a detached copy, so that no gradient is accumulated in the model
+            params = self.task.get_param()[0].detach().requires_grad_()
+            func = partial(self.task.get_loss_func(), params)
+            # 1. Use random batch to estimate covariance matrices S and A
+            cov_matrices = estimate_covariance(
+                func,
+                full_train_dataloader,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
 
-        # Remove hooks after preprocessing the FIM
-        for handle in handles:
-            handle.remove()
+            # 2. Calculate the eigenvalue decomposition of S and A
+            self.cached_q = estimate_eigenvector(cov_matrices)
+
+            # 3. Use random batch for eigenvalue correction
+            self.cached_lambdas = estimate_lambda(
+                func,
+                full_train_dataloader,
+                self.cached_q,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
+        finally:
+            # Remove hooks after preprocessing the FIM
+            for handle in handles:
+                handle.remove()
 
     def transform_test_rep(
         self,
-- 
2.43.0


From bcc7d7354e7589a60698f0977bbcfaeda75b1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 19/64] fix: DataInf with a layer restriction

---
 dattri/algorithm/influence_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 20f09e2..5248879 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -857,6 +857,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
         """
         model_params, param_layer_map = self.task.get_param(
             ckpt_idx,
+            layer_name=self.layer_name,
             layer_split=True,
         )
         split_index = [0] * (param_layer_map[-1] + 1)
-- 
2.43.0


From ab3beb85a3275edc261a0e1283bfe9106a5ce49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 20/64] fix: explicit Fisher inverse product used the squared
 gradient norm instead of the outer product

---
 dattri/func/fisher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index dd6c7b7..77bda04 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -72,6 +72,8 @@ def ifvp_explicit(
             The IFVP value.
         """
         grad_tensor = grad_func(*x)
+        # a column, so that the product below is the outer product
+        grad_tensor = grad_tensor.reshape(grad_tensor.shape[0], -1)
         return torch.linalg.solve(
             grad_tensor @ grad_tensor.T
             + torch.eye(grad_tensor.shape[0]).to(v.device) * regularization,
@@ -116,6 +118,8 @@ def ifvp_at_x_explicit(
         of `func` and `v`.
     """
     grad_tensor = grad(func, argnums=argnums)(*x)
+    # a column, so that the product below is the outer product
+    grad_tensor = grad_tensor.reshape(grad_tensor.shape[0], -1)
     fim = grad_tensor @ grad_tensor.T
 
     def _ifvp_at_x_explicit_func(v: Tensor) -> Tensor:
-- 
2.43.0


From 7e19c3e811d4a2e65548a9f6f25a0b2be86fe1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 21/64] fix: Arnoldi inverse products iterate in the precision
 of the vector

The start vector and the Hessenberg matrix were always float32, so a float64
problem failed with a dtype mismatch.
---
 dattri/func/hessian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 394c4b2..b482614 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -653,7 +653,7 @@ def ihvp_at_x_arnoldi(
         n_iters = min(start_vec.shape[0] + 1, n_iters)
 
         proj = []
-        appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
+        appr_mat = torch.zeros((n_iters, n_iters - 1), dtype=start_vec.dtype).to(device)
 
         start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
@@ -733,7 +733,7 @@ def ihvp_at_x_arnoldi(
 
         if v.ndim == 1:
             v = v.unsqueeze(0)
-        v0 = torch.rand(v.shape[1]).to(v.device)
+        v0 = torch.rand(v.shape[1], dtype=v.dtype).to(v.device)
 
         appr_mat, proj = _arnoldi_iter(
             hvp_at_x_func,
-- 
2.43.0


From cf8ae9c129a75d78730b27c44a42417e9ad0f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 22/64] fix: TRAK flattens the per-sample probabilities when no
 cache is used

As in cache(): a probability function returning one element per sample gave a
(n, 1) correction term that broadcast to (n, n).
---
 dattri/algorithm/trak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index d2a66d0..5969630 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -320,7 +320,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
@@ -508,7 +508,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
-- 
2.43.0


From 296c17548f8ec7ee8facd324c41c52d785065706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 23/64] fix: TRAK self_attribute works on the cached training
 set

Without a training loader it failed on _check_shuffle(None) and then on an
undefined name; cache() now keeps the projected training features.
---
 dattri/algorithm/trak.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index 5969630..9d9eebb 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -118,6 +118,7 @@ class TRAKAttributor(BaseAttributor):
         _check_shuffle(full_train_dataloader)
         self.full_train_dataloader = full_train_dataloader
         inv_XTX_XT_list = []
+        full_train_projected_grad_list = []
         running_Q = 0
         running_count = 0
         for ckpt_idx in range(len(self.task.get_checkpoints())):
@@ -195,10 +196,12 @@ class TRAKAttributor(BaseAttributor):
             kernel_matrix.diagonal().add_(self.regularization)
             inv_XTX_XT = torch.linalg.solve(kernel_matrix, full_train_projected_grad.T)
             inv_XTX_XT_list.append(inv_XTX_XT)
+            full_train_projected_grad_list.append(full_train_projected_grad)
             running_Q = running_Q * running_count + Q
             running_count += 1  # noqa: SIM113
             running_Q /= running_count
         self.inv_XTX_XT_list = inv_XTX_XT_list
+        self.full_train_projected_grad_list = full_train_projected_grad_list
         self.Q = running_Q
 
     def attribute(  # noqa: PLR0912, PLR0914, PLR0915
@@ -415,8 +418,6 @@ class TRAKAttributor(BaseAttributor):
                 dataloader is cached or no train_loader is provided in both cases.
             TypeError: If train/test data is not tuple, list, or dict.
         """
-        test_dataloader = train_dataloader
-        _check_shuffle(test_dataloader)
         if train_dataloader is not None:
             _check_shuffle(train_dataloader)
 
@@ -532,7 +533,7 @@ class TRAKAttributor(BaseAttributor):
                     running_xinv_XTX_XT * running_count
                     + torch.einsum(
                         "ij,ij->i",
-                        train_projected_grad,
+                        self.full_train_projected_grad_list[ckpt_idx],
                         self.inv_XTX_XT_list[ckpt_idx].T,
                     )
                 )
-- 
2.43.0


From 5a9dc8199448527b8e5e96312381ee5399766620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 24/64] fix: TracIn self_attribute of a sample with zero
 gradient when normalising

attribute() normalises a zero gradient to zero, self_attribute() assumed norm
one, so the self score was not the diagonal of the cross scores.
---
 dattri/algorithm/tracin.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dattri/algorithm/tracin.py b/dattri/algorithm/tracin.py
index 3d71021..34a85e8 100644
--- a/dattri/algorithm/tracin.py
+++ b/dattri/algorithm/tracin.py
@@ -368,17 +368,14 @@ class TracInAttributor(BaseAttributor):
                     len(train_dataloader.sampler),
                 )
                 if self.normalized_grad:
-                    tda_output[row_st:row_ed] += (
-                        (torch.ones(row_ed - row_st) * ckpt_weight).detach().cpu()
-                    )
-                else:
-                    tda_output[row_st:row_ed] += (
-                        (
-                            torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)
-                            * ckpt_weight
-                        )
-                        .detach()
-                        .cpu()
+                    train_batch_grad = normalize(train_batch_grad)
+                tda_output[row_st:row_ed] += (
+                    (
+                        torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)
+                        * ckpt_weight
                     )
+                    .detach()
+                    .cpu()
+                )
 
         return tda_output
-- 
2.43.0


From 7dd93a67bd419d46ecdab9f423ee9c9e6d11be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 25/64] fix: disk offload no longer requires a GPU

The buffer pool pinned its buffers unconditionally, which fails without CUDA, so
offload="disk" could not be used on a CPU device.
---
 .../algorithm/block_projected_if/offload/disk_io/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 66971ef..0d0835b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -61,7 +61,11 @@ class BufferPool:
         # Pre-allocate all buffers
         for _ in range(pool_size):
             buffer = ChunkBuffer(
-                tensor=torch.zeros(buffer_shape, dtype=dtype, pin_memory=True),
+                tensor=torch.zeros(
+                    buffer_shape,
+                    dtype=dtype,
+                    pin_memory=torch.cuda.is_available(),
+                ),
                 batch_indices=[],
                 batch_info=[],
                 current_row=0,
-- 
2.43.0


From b7371e5c1bbf49941c60416292ded2311fe01c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 26/64] fix: block-projected test gradients use the task's
 target function

They were always taken of the model's own loss or of cross entropy, so a task
with another loss was attributed with inconsistent train and test gradients.
---
 .../block_projected_if/block_projected_if.py  | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4a7ced7..90fb886 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -827,9 +827,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
                   Shape:(num_test_samples, total_proj_dim)
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
-
-        Raises:
-            ValueError: If model can't return loss for dict-style inputs.
         """
         # Create hook manager if needed
         if self.hook_manager is None:
@@ -852,24 +849,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             # Prepare inputs and compute loss
             if isinstance(batch, dict):
-                inputs = {k: v.to(self.device) for k, v in batch.items()}
                 batch_size = next(iter(batch.values())).shape[0]
-                outputs = self.model(**inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    msg = "Model must return loss for dict-style inputs"
-                    raise ValueError(msg)
             else:
-                inputs, targets = batch
-                inputs = inputs.to(self.device)
-                targets = targets.to(self.device)
-                batch_size = inputs.shape[0]
-                outputs = self.model(inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    loss = nn.functional.cross_entropy(outputs, targets)
+                batch_size = batch[0].shape[0]
+            loss = self.task.original_target_func(self.model, batch, self.device)
 
             loss.backward()
 
-- 
2.43.0


From 06568f3748432a3136ae98a42d4cf647c2db9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 27/64] fix: block-projected gradients are always taken at the
 first checkpoint

The checkpoint was only loaded in the constructor; after another attributor of
the same task had loaded a later checkpoint, cache() and attribute() used that.
---
 dattri/algorithm/block_projected_if/block_projected_if.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 90fb886..2fabcc3 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -216,6 +216,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
             self.offload,
         )
 
+        # another user of the task may have loaded another checkpoint
+        self.task._load_checkpoints(0)  # noqa: SLF001 - Accessing private method to load checkpoints
         self.full_train_dataloader = full_train_dataloader
 
         # Setup compressors if not already done
@@ -838,6 +840,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             if self.compressors:
                 self.hook_manager.set_compressors(self.compressors)
 
+        self.task._load_checkpoints(0)  # noqa: SLF001 - Accessing private method to load checkpoints
         all_test_grads = []
         test_batch_mapping = {}
         current_row = 0
-- 
2.43.0


From 458809ec5845b9558326fc7175767b276f17fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 28/64] fix: re-caching a block-projected attributor forgets
 the previous training set

Batches, inverse-Hessian products and preconditioners of an earlier cache() (or
of an earlier attributor using the same directory) were mixed into the scores
when the number of batches was equal, smaller, or the Hessian the identity.
---
 .../algorithm/block_projected_if/block_projected_if.py   | 5 +++++
 dattri/algorithm/block_projected_if/core/metadata.py     | 8 ++++----
 dattri/algorithm/block_projected_if/offload/cpu.py       | 2 ++
 dattri/algorithm/block_projected_if/offload/disk.py      | 1 +
 .../block_projected_if/offload/disk_io/manager.py        | 9 +++++++++
 dattri/algorithm/block_projected_if/offload/memory.py    | 2 ++
 6 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 2fabcc3..1c0fa11 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -220,6 +220,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
         self.task._load_checkpoints(0)  # noqa: SLF001 - Accessing private method to load checkpoints
         self.full_train_dataloader = full_train_dataloader
 
+        # Forget everything derived from an earlier training set
+        self.offload_manager.clear_cache()
+        self.layer_dims = None
+        self.total_proj_dim = None
+
         # Setup compressors if not already done
         if self.compressors is None:
             self._setup_compressors(full_train_dataloader)
diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 8f85cf1..ddfc400 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -61,10 +61,10 @@ class MetadataManager:
         total_batches = len(train_dataloader)
         batch_size = train_dataloader.batch_size
 
-        # Check if already initialized
-        if len(self.batch_info) == total_batches:
-            logger.info("Dataset metadata already complete, skipping initialization")
-            return
+        # Forget the batches of an earlier dataset
+        with self._metadata_lock:
+            self.batch_info = {}
+            self._pending_batches.clear()
 
         # Compute complete batch structure
         if hasattr(train_dataloader.dataset, "__len__"):
diff --git a/dattri/algorithm/block_projected_if/offload/cpu.py b/dattri/algorithm/block_projected_if/offload/cpu.py
index 1aaa9ee..0a95551 100644
--- a/dattri/algorithm/block_projected_if/offload/cpu.py
+++ b/dattri/algorithm/block_projected_if/offload/cpu.py
@@ -340,6 +340,8 @@ class CPUOffloadManager(Offload):
 
     def clear_cache(self) -> None:
         """Clear all cached data."""
+        self.layer_dims = None
+        self.total_proj_dim = None
         self.cached_gradients = {}
         self.cached_test_gradients = {}
         self.preconditioners = [None] * len(self.layer_names)
diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 29e088a..962a085 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -226,6 +226,7 @@ class DiskOffloadManager(Offload):
                         file_path.unlink()
                     except OSError as e:  # noqa: PERF203 - Exception needed for file cleanup
                         logger.warning("Error removing %s: %s", file_path, e)
+        self.disk_io.reset()
 
     def wait_for_async_operations(self) -> None:
         """Wait for any pending asynchronous disk operations to complete."""
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 0d0835b..e477b6a 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -232,6 +232,15 @@ class ChunkedDiskIOManager:
             buffer_pool_size,
         )
 
+    def reset(self) -> None:
+        """Forget everything stored so far."""
+        self._chunk_buffers.clear()
+        self._buffer_pools.clear()
+        with self._read_cache_lock:
+            self._read_cache.clear()
+        self.layer_dims = None
+        self.total_proj_dim = None
+
     def get_chunk_id(self, batch_idx: int) -> int:
         """Get chunk ID for a batch index.
 
diff --git a/dattri/algorithm/block_projected_if/offload/memory.py b/dattri/algorithm/block_projected_if/offload/memory.py
index 4a82255..5e9b255 100644
--- a/dattri/algorithm/block_projected_if/offload/memory.py
+++ b/dattri/algorithm/block_projected_if/offload/memory.py
@@ -320,6 +320,8 @@ class MemoryOffloadManager(Offload):
 
     def clear_cache(self) -> None:
         """Clear all cached data from memory."""
+        self.layer_dims = None
+        self.total_proj_dim = None
         self.cached_gradients = {}
         self.cached_test_gradients = {}
         self.preconditioners = [None] * len(self.layer_names)
-- 
2.43.0


From 29e360d333fc64b28de327424689b161ac362964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 29/64] fix: block-projected attribute() without cache() uses
 the given training loader

The loader of the first call was kept as if it had been cached, so a later call
with other training data returned the scores of the first.
---
 dattri/algorithm/block_projected_if/block_projected_if.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 1c0fa11..b6fb2b1 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -145,6 +145,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # Initialize other components
         self.full_train_dataloader: Optional[DataLoader] = None
+        self._full_train_not_cached = False
         self.hook_manager: Optional[HookManager] = None
         self.compressors: Optional[List[Any]] = None
         self.layer_dims: Optional[List[int]] = None
@@ -219,6 +220,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         # another user of the task may have loaded another checkpoint
         self.task._load_checkpoints(0)  # noqa: SLF001 - Accessing private method to load checkpoints
         self.full_train_dataloader = full_train_dataloader
+        self._full_train_not_cached = False
 
         # Forget everything derived from an earlier training set
         self.offload_manager.clear_cache()
@@ -706,13 +708,17 @@ class BlockProjectedIFAttributor(BaseAttributor):
         _check_shuffle(test_dataloader)
 
         # Handle training data
-        if self.full_train_dataloader is None:
+        if self.full_train_dataloader is None or (
+            self._full_train_not_cached
+            and train_dataloader is not self.full_train_dataloader
+        ):
             warnings.warn(
                 "The full training data loader was NOT cached. "
                 "Treating the train_dataloader as the full training data loader.",
                 stacklevel=2,
             )
             self.cache(train_dataloader)
+            self._full_train_not_cached = True
 
         # Load batch information if needed
         if not self.metadata.batch_info:
-- 
2.43.0


From c00a91e9271b90d93ebccb7e58d5cb264e71c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 30/64] fix: a failed block-projected call leaves the model
 unpatched and nothing cached

When the loss, the model or the loader raised, the layers kept the gradient
capturing forward functions and the attributor believed the set was cached.
---
 .../block_projected_if/block_projected_if.py  | 31 ++++++++++++++++---
 .../block_projected_if/core/compressor.py     | 19 ++++++------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index b6fb2b1..676c66a 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -206,9 +206,28 @@ class BlockProjectedIFAttributor(BaseAttributor):
             if self.metadata.layer_dims is None:
                 self.metadata.set_layer_dims(self.layer_dims)
 
-    def cache(self, full_train_dataloader: DataLoader) -> None:  # noqa: PLR0912
+    def cache(self, full_train_dataloader: DataLoader) -> None:
         """Cache gradients and IFVP for the full training dataset.
 
+        Args:
+            full_train_dataloader: DataLoader for full training data
+        """
+        self.full_train_dataloader = None
+        try:
+            self._cache(full_train_dataloader)
+        finally:
+            self._remove_hooks()
+        self.full_train_dataloader = full_train_dataloader
+
+    def _remove_hooks(self) -> None:
+        """Restore the original forward functions of the model."""
+        if self.hook_manager is not None:
+            self.hook_manager.remove_hooks()
+            self.hook_manager = None
+
+    def _cache(self, full_train_dataloader: DataLoader) -> None:  # noqa: PLR0912
+        """Implementation of `cache`.
+
         Args:
             full_train_dataloader: DataLoader for full training data
         """
@@ -219,7 +238,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # another user of the task may have loaded another checkpoint
         self.task._load_checkpoints(0)  # noqa: SLF001 - Accessing private method to load checkpoints
-        self.full_train_dataloader = full_train_dataloader
         self._full_train_not_cached = False
 
         # Forget everything derived from an earlier training set
@@ -741,9 +759,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # Compute test gradients
         logger.info("Computing test gradients")
-        test_grads_tensor, _test_batch_mapping = self._compute_test_gradients(
-            test_dataloader,
-        )
+        try:
+            test_grads_tensor, _test_batch_mapping = self._compute_test_gradients(
+                test_dataloader,
+            )
+        finally:
+            self._remove_hooks()
 
         if test_grads_tensor is None or test_grads_tensor.numel() == 0:
             logger.warning("No test gradients computed")
diff --git a/dattri/algorithm/block_projected_if/core/compressor.py b/dattri/algorithm/block_projected_if/core/compressor.py
index 0fe6d2c..2eb5e57 100644
--- a/dattri/algorithm/block_projected_if/core/compressor.py
+++ b/dattri/algorithm/block_projected_if/core/compressor.py
@@ -303,15 +303,16 @@ def setup_model_compressors(  # noqa: PLR0912, PLR0914, PLR0915 - Complex setup
             hooks.append(hook)
 
     # Run another forward pass to capture inputs/outputs
-    with torch.no_grad():
-        if isinstance(sample_inputs, dict):
-            model(**inputs)
-        else:
-            model(inputs)
-
-    # Remove temporary hooks
-    for hook in hooks:
-        hook.remove()
+    try:
+        with torch.no_grad():
+            if isinstance(sample_inputs, dict):
+                model(**inputs)
+            else:
+                model(inputs)
+    finally:
+        # Remove temporary hooks
+        for hook in hooks:
+            hook.remove()
 
     # Create sparsifiers and projectors for each layer
     module_list = list(model.named_modules())
-- 
2.43.0


From c29f2ccb638029d1bfb3164b6b455222eec54b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 31/64] fix: block-projected attribution of models with layers
 unused by the loss

A layer outside the backward pass had the gradient None, on which every storage
backend failed, or kept the gradients of the previous batch.
---
 dattri/algorithm/block_projected_if/core/hook.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/hook.py b/dattri/algorithm/block_projected_if/core/hook.py
index 71524bf..5d28211 100644
--- a/dattri/algorithm/block_projected_if/core/hook.py
+++ b/dattri/algorithm/block_projected_if/core/hook.py
@@ -363,9 +363,14 @@ class HookManager:
         """Get all captured compressed gradients.
 
         Returns:
-            List of compressed gradients for each hooked layer
+            List of compressed gradients for each hooked layer, an empty tensor
+            for a layer that took no part in the last backward pass
         """
-        return self.compressed_grads
+        grads = [
+            torch.empty(0) if grad is None else grad for grad in self.compressed_grads
+        ]
+        self.compressed_grads = [None] * len(self.layer_names)
+        return grads
 
     def remove_hooks(self) -> None:
         """Restore original forward methods and cleanup registry."""
-- 
2.43.0


From d9d4501fad7c491800b3f4e3604604862f70ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 32/64] fix: the disk cache reports failed writes instead of
 waiting forever

A failed write stayed pending, so finalizing the batch range never returned, and
a second write of the same chunk was not waited for. Failed writes of
preconditioners were only logged.
---
 .../block_projected_if/offload/disk.py        |  5 +-
 .../offload/disk_io/manager.py                | 55 +++++++++++++++----
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 962a085..e9e4529 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -216,7 +216,10 @@ class DiskOffloadManager(Offload):
 
     def clear_cache(self) -> None:
         """Clear all cached data from disk."""
-        self.disk_io.wait_for_async_operations()
+        try:
+            self.disk_io.wait_for_async_operations()
+        except RuntimeError:
+            logger.exception("Discarding data that could not be written")
 
         for subdir in ["grad", "ifvp", "precond"]:
             subdir_path = pathlib.Path(self.cache_dir) / subdir
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index e477b6a..008f717 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -195,6 +195,11 @@ class ChunkedDiskIOManager:
         self._write_workers = []
         self._shutdown = False
 
+        # Pending writes tracking
+        self._pending_writes = []  # Track chunk_ids being written, one per write
+        self._pending_writes_lock = threading.Lock()
+        self._write_errors = []  # Failed writes that were not reported yet
+
         # Start multiple write workers
         for i in range(num_write_workers):
             worker = threading.Thread(
@@ -207,10 +212,6 @@ class ChunkedDiskIOManager:
 
         logger.info("Started %s write workers", num_write_workers)
 
-        # Pending writes tracking
-        self._pending_writes = set()  # Track chunk_ids being written
-        self._pending_writes_lock = threading.Lock()
-
         # Read cache for recently accessed chunks
         # (data_type, chunk_id) -> (tensor, metadata, last_access_time)
         self._read_cache = {}
@@ -240,6 +241,7 @@ class ChunkedDiskIOManager:
             self._read_cache.clear()
         self.layer_dims = None
         self.total_proj_dim = None
+        self.current_batch_range = None
 
     def get_chunk_id(self, batch_idx: int) -> int:
         """Get chunk ID for a batch index.
@@ -371,11 +373,17 @@ class ChunkedDiskIOManager:
                         batch_info,
                     )
 
-                    # Remove from pending writes
+                except Exception as e:
+                    # Keep the failure for the caller waiting for this write
                     with self._pending_writes_lock:
-                        self._pending_writes.discard((data_type, chunk_id))
+                        self._write_errors.append(e)
+                    raise
 
                 finally:
+                    # Remove from pending writes
+                    with self._pending_writes_lock:
+                        self._pending_writes.remove((data_type, chunk_id))
+
                     # Return buffer to pool if provided (for backward compatibility)
                     if buffer is not None:
                         pool = self._get_or_create_buffer_pool(data_type)
@@ -562,7 +570,7 @@ class ChunkedDiskIOManager:
 
         # Mark as pending write
         with self._pending_writes_lock:
-            self._pending_writes.add((data_type, chunk_id))
+            self._pending_writes.append((data_type, chunk_id))
 
         # Submit to write queue without the buffer (since we already returned it)
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
@@ -692,7 +700,11 @@ class ChunkedDiskIOManager:
         return expected_batches.issubset(stored_batches)
 
     def finalize_batch_range(self) -> None:
-        """Flush any remaining buffers and wait for writes."""
+        """Flush any remaining buffers and wait for writes.
+
+        Raises:
+            RuntimeError: If data that was stored could not be written to disk.
+        """  # noqa: DOC502
         if self.current_batch_range is None:
             return
 
@@ -710,6 +722,20 @@ class ChunkedDiskIOManager:
             time.sleep(0.1)
 
         self.current_batch_range = None
+        self._raise_write_errors()
+
+    def _raise_write_errors(self) -> None:
+        """Report the writes that failed since the last report.
+
+        Raises:
+            RuntimeError: If data that was stored could not be written to disk.
+        """
+        with self._pending_writes_lock:
+            errors = self._write_errors
+            self._write_errors = []
+        if errors:
+            msg = f"{len(errors)} writes to {self.cache_dir} failed"
+            raise RuntimeError(msg) from errors[0]
 
     def _retrieve_batch_data_with_cache(  # noqa: PLR0912, PLR0914
         self,
@@ -940,7 +966,11 @@ class ChunkedDiskIOManager:
         return "grad" if data_type == "gradients" else data_type
 
     def wait_for_async_operations(self) -> None:  # noqa: ARG002
-        """Wait for all async operations to complete."""
+        """Wait for all async operations to complete.
+
+        Raises:
+            RuntimeError: If data that was stored could not be written to disk.
+        """  # noqa: DOC502
         if self._shutdown:
             return  # Skip if we're shutting down
 
@@ -960,10 +990,11 @@ class ChunkedDiskIOManager:
         errors = [
             future for future in self.futures if not self._check_future_result(future)
         ]
-        if errors:
-            logger.warning("Some async operations failed: %s errors", len(errors))
-
         self.futures = []
+        with self._pending_writes_lock:
+            self._write_errors.extend(future.exception() for future in errors)
+
+        self._raise_write_errors()
 
     @staticmethod
     def _check_future_result(future: Any) -> bool:  # noqa: ANN401
-- 
2.43.0


From 5fff55ae2932e47bea41eb44c3f083c409e21e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 33/64] fix: damaged chunks are reported and chunks are read in
 batch order

Chunks that could not be loaded were silently replaced by no data, and the
chunks were sorted by name, so batch 10 came before batch 2.
---
 .../offload/disk_io/prefetch_dataset.py       | 86 ++++++++-----------
 1 file changed, 34 insertions(+), 52 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index a777fcd..1515564 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 import logging
-import operator
 import pathlib
 import queue
 import threading
@@ -103,36 +102,30 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         )
 
         for chunk_filename in chunk_files:
-            try:
-                # Load chunk metadata
-                metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
-                    chunk_path,
-                    chunk_filename,
-                )
-
-                # Check if chunk contains batches in our range
-                if self.batch_range is not None:
-                    start_batch, end_batch = self.batch_range
-                    chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
-
-                    # Skip chunks that don't overlap with our range
-                    if not any(start_batch <= idx < end_batch for idx in chunk_batches):
-                        continue
-
-                chunk_info.append(
-                    {
-                        "chunk_filename": chunk_filename,
-                        "chunk_path": chunk_path,
-                        "metadata": metadata,
-                    },
-                )
+            # Load chunk metadata
+            metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
+                chunk_path,
+                chunk_filename,
+            )
 
-            except Exception:
-                logger.exception("Error loading chunk %s", chunk_filename)
-                continue
+            # Check if chunk contains batches in our range
+            if self.batch_range is not None:
+                start_batch, end_batch = self.batch_range
+                chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
+
+                # Skip chunks that don't overlap with our range
+                if not any(start_batch <= idx < end_batch for idx in chunk_batches):
+                    continue
+
+            chunk_info.append(
+                {
+                    "chunk_filename": chunk_filename,
+                    "chunk_path": chunk_path,
+                    "metadata": metadata,
+                },
+            )
 
-        # Sort by chunk filename for consistency
-        chunk_info.sort(key=operator.itemgetter("chunk_filename"))
+        # find_chunk_files returns the chunks in batch order
         return chunk_info
 
     def _start_prefetch_thread(self) -> None:
@@ -275,29 +268,18 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         chunk_path = chunk_info["chunk_path"]
 
         _lazy_import_memory_map()
-        try:
-            # Load chunk as tensor with batch mapping
-            (
-                tensor,
-                batch_mapping,
-            ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
-                chunk_path,
-                chunk_filename,
-                self.batch_range,
-            )
-        except Exception:
-            logger.exception("Error loading chunk %s", chunk_filename)
-            # Return empty data on error
-            layer_dims = chunk_info["metadata"].get("layer_dims", [])
-            total_proj_dim = sum(layer_dims) if layer_dims else 0
-            empty_tensor = torch.empty(0, total_proj_dim)
-            return empty_tensor, {}
-        else:
-            # Add to cache for potential reuse
-            with self._cache_lock:
-                self._chunk_cache[idx] = (tensor, batch_mapping)
-
-            return tensor, batch_mapping
+        # Load chunk as tensor with batch mapping
+        tensor, batch_mapping = ChunkedMemoryMapHandler.load_chunk_batch_range(
+            chunk_path,
+            chunk_filename,
+            self.batch_range,
+        )
+
+        # Add to cache for potential reuse
+        with self._cache_lock:
+            self._chunk_cache[idx] = (tensor, batch_mapping)
+
+        return tensor, batch_mapping
 
     def __del__(self) -> None:
         """Clean up prefetch thread."""
-- 
2.43.0


From bb47335a826a68203ce456f31fa432bbb904b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 34/64] fix: an incomplete block-projected cache is refused

Batches or preconditioners missing from the cache, for instance after the
caching process was stopped, silently counted as zero.
---
 .../block_projected_if/block_projected_if.py  | 47 ++++++++++++++++++-
 .../block_projected_if/core/metadata.py       |  2 +
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 676c66a..933f00f 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -206,6 +206,24 @@ class BlockProjectedIFAttributor(BaseAttributor):
             if self.metadata.layer_dims is None:
                 self.metadata.set_layer_dims(self.layer_dims)
 
+    def _check_complete(self, data_type: str, batch_indices: set) -> None:
+        """Check that data of every batch of the cached training set was found.
+
+        Args:
+            data_type: Type of data that was loaded ("gradients" or "ifvp").
+            batch_indices: Indices of the batches that were found.
+
+        Raises:
+            RuntimeError: If the data of some batch is missing.
+        """
+        missing = set(self.metadata.get_batch_to_sample_mapping()) - batch_indices
+        if missing or not batch_indices:
+            msg = (
+                f"The cached {data_type} are incomplete (missing batches: "
+                f"{sorted(missing)}). Please cache the training data again."
+            )
+            raise RuntimeError(msg)
+
     def cache(self, full_train_dataloader: DataLoader) -> None:
         """Cache gradients and IFVP for the full training dataset.
 
@@ -415,10 +433,13 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
-        for chunk_tensor, _batch_mapping in tqdm(
+        found_batches = set()
+        for chunk_tensor, batch_mapping in tqdm(
             dataloader,
             desc="Computing preconditioners",
         ):
+            found_batches.update(batch_mapping)
+
             # Move chunk to device
             chunk_tensor_device = self.offload_manager.move_to_device(chunk_tensor)
 
@@ -439,6 +460,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
+        self._check_complete("gradients", found_batches)
+
         # Compute preconditioners from accumulated Hessians
         computed_count = 0
         for layer_idx in tqdm(range(len(self.layer_names)), desc="Computing inverses"):
@@ -491,6 +514,12 @@ class BlockProjectedIFAttributor(BaseAttributor):
         preconditioners = []
         for layer_idx in range(len(self.layer_names)):
             precond = self.offload_manager.retrieve_preconditioner(layer_idx)
+            if precond is None and self.layer_dims[layer_idx] > 0:
+                msg = (
+                    f"The preconditioner of layer {self.layer_names[layer_idx]} is "
+                    "missing. Please cache the training data again."
+                )
+                raise RuntimeError(msg)
             preconditioners.append(precond)
 
         # Get batch mapping
@@ -512,7 +541,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
+        found_batches = set()
         for chunk_tensor, batch_mapping in tqdm(dataloader, desc="Computing IFVP"):
+            found_batches.update(batch_mapping)
+
             # Move chunk to device
             chunk_tensor_device = self.offload_manager.move_to_device(chunk_tensor)
 
@@ -571,6 +603,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             self.offload_manager.finish_batch_range_processing()
 
         self.offload_manager.wait_for_async_operations()
+        self._check_complete("gradients", found_batches)
         logger.info(
             "Computed IFVP for %s batches, %s samples",
             processed_batches,
@@ -601,10 +634,13 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
+        found_batches = set()
         for chunk_tensor, batch_mapping in tqdm(
             dataloader,
             desc="Copying gradients as IFVP",
         ):
+            found_batches.update(batch_mapping)
+
             for batch_idx, (start_row, end_row) in batch_mapping.items():
                 if batch_idx not in batch_to_sample_mapping:
                     continue
@@ -628,6 +664,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
         if hasattr(self.offload_manager, "finish_batch_range_processing"):
             self.offload_manager.finish_batch_range_processing()
 
+        self._check_complete("gradients", found_batches)
+
         logger.info("Copied %s batches as IFVP", processed_batches)
 
     def compute_self_attribution(  # noqa: PLR0914 - Complex self-attribution computation requires multiple local variables for tracking state
@@ -669,6 +707,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             pin_memory=True,
         )
 
+        found_batches = set()
         if grad_dataloader and ifvp_dataloader:
             # Process in parallel
             for (grad_tensor, grad_mapping), (ifvp_tensor, ifvp_mapping) in tqdm(
@@ -689,6 +728,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
                         continue
 
                     sample_start, sample_end = batch_to_sample_mapping[batch_idx]
+                    found_batches.add(batch_idx)
 
                     # Extract batch slices
                     grad_start, grad_end = grad_mapping[batch_idx]
@@ -703,6 +743,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
                 torch.cuda.empty_cache()
 
+        self._check_complete("gradients and ifvp", found_batches)
         return self_influence
 
     def attribute(  # noqa: PLR0914 - Complex attribution computation requires multiple local variables for dataloader management and tensor processing
@@ -805,10 +846,13 @@ class BlockProjectedIFAttributor(BaseAttributor):
         test_batch_size = min(32, test_sample_count)
 
         # Single pass through training IFVP data with nested test batching
+        found_batches = set()
         for chunk_tensor, batch_mapping in tqdm(
             train_ifvp_dataloader,
             desc="Computing attribution",
         ):
+            found_batches.update(batch_mapping)
+
             # Move train chunk to device
             chunk_tensor_device = self.offload_manager.move_to_device(chunk_tensor).to(
                 dtype=test_grads_tensor.dtype,
@@ -840,6 +884,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             torch.cuda.empty_cache()
 
+        self._check_complete("ifvp", found_batches)
         logger.info(
             "Attribution computation completed. Result shape: %s",
             if_score.shape,
diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index ddfc400..a99386b 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -65,6 +65,8 @@ class MetadataManager:
         with self._metadata_lock:
             self.batch_info = {}
             self._pending_batches.clear()
+            self.layer_dims = None
+            self.total_proj_dim = None
 
         # Compute complete batch structure
         if hasattr(train_dataloader.dataset, "__len__"):
-- 
2.43.0


From 07a92319120fbb6db2f23806e302de1baf020d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 35/64] fix: FactGraSS uses the given projection seed

---
 dattri/algorithm/factgrass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/factgrass.py b/dattri/algorithm/factgrass.py
index b2c1e2b..5f84394 100644
--- a/dattri/algorithm/factgrass.py
+++ b/dattri/algorithm/factgrass.py
@@ -100,13 +100,15 @@ class FactGraSSAttributor(BlockProjectedIFAttributor):
         # Set FactGraSS-specific configuration
         sparsifier_params = GeneralProjectionParams(
             proj_dim=per_component_dim,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="random_mask",
         )
 
         projector_params = GeneralProjectionParams(
             proj_dim=self.proj_params.proj_dim_per_layer,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="sjlt" if device == "cuda" else "normal",
         )
 
-- 
2.43.0


From 3675d44ccba510890672c2b5c26966fb1d42f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 36/64] fix: disk offload accepts batches larger than a chunk
 buffer

---
 .../offload/disk_io/manager.py                | 44 ++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 008f717..36e3db8 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -519,17 +519,24 @@ class ChunkedDiskIOManager:
                 logger.warning(
                     "Chunk buffer overflow. Consider increasing max_samples_per_chunk",
                 )
-                # Force flush and start new buffer
-                self._async_flush_chunk_buffer(buffer_key)
-
-                # Get new buffer and retry
-                buffer = pool.get_buffer(timeout=5.0)
-                if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
-                self._chunk_buffers[buffer_key] = buffer
+                if buffer.batch_info:
+                    # Force flush and start new buffer
+                    self._async_flush_chunk_buffer(buffer_key)
+
+                    # Get new buffer and retry
+                    buffer = pool.get_buffer(timeout=5.0)
+                    if buffer is None:
+                        msg = "Failed to get new buffer after overflow"
+                        raise RuntimeError(msg)
+                    self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
+                if batch_size > len(buffer.tensor):
+                    # A single batch larger than the buffers of the pool
+                    buffer.tensor = torch.zeros(
+                        (batch_size, self.total_proj_dim),
+                        dtype=torch.float32,
+                    )
 
             # Direct copy to pre-allocated buffer
             buffer.tensor[start_row:end_row] = batch_tensor
@@ -641,14 +648,21 @@ class ChunkedDiskIOManager:
             end_row = start_row + batch_size
 
             if end_row > self.max_samples_per_chunk:
-                self._async_flush_chunk_buffer(buffer_key)
-                buffer = pool.get_buffer(timeout=5.0)
-                if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
-                self._chunk_buffers[buffer_key] = buffer
+                if buffer.batch_info:
+                    self._async_flush_chunk_buffer(buffer_key)
+                    buffer = pool.get_buffer(timeout=5.0)
+                    if buffer is None:
+                        msg = "Failed to get new buffer after overflow"
+                        raise RuntimeError(msg)
+                    self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
+                if batch_size > len(buffer.tensor):
+                    # A single batch larger than the buffers of the pool
+                    buffer.tensor = torch.zeros(
+                        (batch_size, self.total_proj_dim),
+                        dtype=torch.float32,
+                    )
 
             buffer.tensor[start_row:end_row] = batch_tensor
             buffer.batch_indices.append(batch_idx)
-- 
2.43.0


From 8dd27fea6ee389f2c33be8fdfe592763e78e25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 37/64] fix: hvp differentiates only the chosen argument, so
 others may hold integer labels

---
 dattri/func/hessian.py | 65 +++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index b482614..243c6dc 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -26,7 +26,6 @@ if TYPE_CHECKING:
 import torch
 from torch import Tensor
 from torch.func import grad, hessian, jvp, vjp, vmap
-from torch.utils._pytree import tree_map
 
 
 def hvp(
@@ -76,6 +75,18 @@ def hvp(
         raise IHVPUsageError(error_msg)
 
     grad_func = grad(func, argnums=argnums)
+
+    def _grad_at(x: Tuple[torch.Tensor, ...]) -> Callable:
+        """Fix all arguments but the differentiated one.
+
+        Args:
+            x (Tuple[torch.Tensor, ...]): The arguments of func.
+
+        Returns:
+            (Callable) The gradient as a function of the differentiated argument.
+        """
+        return lambda arg: grad_func(*x[:argnums], arg, *x[argnums + 1 :])
+
     if mode == "rev-rev":
 
         def _hvp_func(x: Tuple[torch.Tensor, ...], v: Tensor) -> Tensor:
@@ -90,8 +101,8 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            _, vjp_fn = vjp(grad_func, *x)
-            return vjp_fn(v)[argnums] + regularization * v
+            _, vjp_fn = vjp(_grad_at(x), x[argnums])
+            return vjp_fn(v)[0] + regularization * v
     else:
 
         def _hvp_func(x: Tuple[torch.Tensor, ...], v: Tensor) -> Tensor:
@@ -106,18 +117,7 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            if len(x) > 1:
-                v_patched = []
-                for i in range(len(x)):
-                    if i != argnums:
-                        v_patched.append(tree_map(torch.zeros_like, x[i]))
-                    else:
-                        v_patched.append(v)
-                v_patched = tuple(v_patched)
-            else:
-                v_patched = (v,)
-
-            return jvp(grad_func, x, v_patched)[1] + regularization * v
+            return jvp(_grad_at(x), (x[argnums],), (v,))[1] + regularization * v
 
     return _hvp_func
 
@@ -175,9 +175,20 @@ def hvp_at_x(
         raise IHVPUsageError(error_msg)
 
     grad_func = grad(func, argnums=argnums)
+
+    def _grad_at_arg(arg: Tensor) -> Tensor:
+        """The gradient as a function of the differentiated argument only.
+
+        Args:
+            arg (Tensor): The value of the differentiated argument.
+
+        Returns:
+            (Tensor) The gradient.
+        """
+        return grad_func(*x[:argnums], arg, *x[argnums + 1 :])
+
     if mode == "rev-rev":
-        # pylint: disable=unbalanced-tuple-unpacking
-        _, vjp_fn = vjp(grad_func, *x)
+        _, vjp_fn = vjp(_grad_at_arg, x[argnums])
 
         def _hvp_at_x_func(v: Tensor) -> Tensor:
             """The HVP function based on func.
@@ -189,14 +200,8 @@ def hvp_at_x(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            return vjp_fn(v)[argnums] + regularization * v
+            return vjp_fn(v)[0] + regularization * v
     else:
-        # patch the v, make zero for other input
-        # e.g.,
-        # if argnums = 1, and len(x) = 3, then it should be patched to
-        # [torch.zeros(*x[0].shape),
-        # v,
-        # torch.zeros(*x[2].shape)]
         def _hvp_at_x_func(v: Tensor) -> Tensor:
             """The HVP function based on func.
 
@@ -207,17 +212,7 @@ def hvp_at_x(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            if len(x) > 1:
-                v_patched = []
-                for i in range(len(x)):
-                    if i != argnums:
-                        v_patched.append(tree_map(torch.zeros_like, x[i]))
-                    else:
-                        v_patched.append(v)
-                v_patched = tuple(v_patched)
-            else:
-                v_patched = (v,)
-            return jvp(grad_func, x, v_patched)[1] + regularization * v
+            return jvp(_grad_at_arg, (x[argnums],), (v,))[1] + regularization * v
 
     return _hvp_at_x_func
 
-- 
2.43.0


From 0d5bb0b1d3e347160d6fcb76f81598ebb755bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 38/64] fix: loo_corr pairs scores with the removed samples'
 indices

---
 dattri/metric/metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/metric/metrics.py b/dattri/metric/metrics.py
index 93d1ecc..34dd615 100644
--- a/dattri/metric/metrics.py
+++ b/dattri/metric/metrics.py
@@ -100,8 +100,9 @@ def loo_corr(
             metric values and their corresponding p-values. Both tensors have the
             shape (num_test_samples,).
     """
-    score = score.cpu()
-    gt_values, _ = ground_truth
+    gt_values, indices = ground_truth
+    # Row i of the ground truth belongs to the model without sample indices[i]
+    score = score.cpu()[indices.cpu().long()]
     num_test_samples = score.shape[1]
 
     loo_corr = torch.stack(
-- 
2.43.0


From 225ca8f67853a2fd02467a7f4b292942d10d8319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 39/64] fix: brittleness removes loader positions and accepts
 any sampler and score columns

---
 dattri/metric/britteness.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 56437ef..cfc13b8 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -53,7 +53,7 @@ def brittleness(
     k_values = list(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
-    sorted_indices = np.argsort(scores)[::-1]
+    sorted_indices = np.argsort(np.ravel(scores))[::-1]
     for k in tqdm(
         k_values,
         desc="Calculating brittleness",
@@ -95,9 +95,18 @@ def check_if_flip(
     Returns:
         bool: True if prediction flips after data removal, otherwise False.
     """
-    original_sampler = train_loader.sampler
-    original_indices = original_sampler.indices
-    remaining_indices = list(set(original_indices) - set(indices_to_remove))
+    # Scores, and hence the indices to remove, refer to positions in the loader
+    original_indices = getattr(
+        train_loader.sampler,
+        "indices",
+        range(len(train_loader.sampler)),
+    )
+    removed = {int(position) for position in indices_to_remove}
+    remaining_indices = [
+        int(index)
+        for position, index in enumerate(original_indices)
+        if position not in removed
+    ]
 
     new_train_loader = torch.utils.data.DataLoader(
         train_loader.dataset,
-- 
2.43.0


From 69cd389e720f10b889202e5b72e6ca6a3757f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 40/64] fix: leave-one-out ground truth loads the whole models
 retrain_loo saved

---
 dattri/metric/ground_truth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 85373bd..45b033c 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -84,7 +84,8 @@ def calculate_loo_ground_truth(
     model_indices = torch.empty(length_dir)
     for dir_cnt, model_file in enumerate(model_dirs_sorted):
         model_path = Path(retrain_dir) / model_file / "model_weights.pt"
-        model = torch.load(model_path)
+        # retrain_loo stores whole models, not state dicts
+        model = torch.load(model_path, weights_only=False)
         # Calculate target function values.
         values = target_func(model, test_dataloader)
         loo_results[dir_cnt, :] = values
-- 
2.43.0


From 4ff9910db6d7d146db41d2c26dea9be5afa5a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 41/64] fix: retrain_loo metadata holds plain strings, so it
 can be loaded safely

---
 dattri/model_util/retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 28f492d..5306757 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -125,7 +125,7 @@ def retrain_loo(
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
         # Update the metadata.
-        metadata["map_index_dir"][index] = model_dir
+        metadata["map_index_dir"][index] = str(model_dir)
         torch.save(model, weights_dir)
 
     metadata_file = Path(path) / "metadata.yml"
-- 
2.43.0


From 0383ccd19a769b6255610debf4456ce5f105bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 42/64] fix: partitioned subset retraining writes metadata for
 all partitions

---
 dattri/model_util/retrain.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 5306757..20dfc28 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -229,7 +229,6 @@ def retrain_lds(
     data_length = len(dataloader.sampler)
     subset_length = int(data_length * subset_ratio)
 
-    subset_dir_map = {}
     rng = np.random.default_rng(seed)  # this can also handle seed=None
 
     # seed control
@@ -267,20 +266,16 @@ def retrain_lds(
             model_path.parent.mkdir(parents=True, exist_ok=True)
             torch.save(model.state_dict(), model_path)
 
-        # Save the subset directory
-        subset_dir_map[i] = str(path / str(i))
-
-    # Save metadata
-    if (
-        total_num_subsets == 0  # noqa: PLR1714
-        or (start_id + 1) * num_subsets == total_num_subsets
-    ):
+    # Save metadata, covering the subsets of every partition, with the last one
+    if total_num_subsets == 0 or start_id + num_subsets == total_num_subsets:
+        num_subsets = start_id + num_subsets
+        subset_dir_map = {i: str(path / str(i)) for i in range(num_subsets)}
         # Create metadata to save
         metadata = {
             "mode": "lds",
             "data_length": data_length,
             "train_func": train_func.__name__,
-            "num_subsets": (start_id + 1) * num_subsets,
+            "num_subsets": num_subsets,
             "subset_ratio": subset_ratio,
             "num_runs_per_subset": num_runs_per_subset,
             "subset_dir_map": subset_dir_map,
-- 
2.43.0


From 190fb40e5b451c03279f86cb03f6302749d9531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 43/64] fix: retraining uses the samples the loader's sampler
 selects

---
 dattri/model_util/retrain.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 20dfc28..736663d 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -97,6 +97,9 @@ def retrain_loo(
     else:
         all_indices = list(range(len(dataloader.dataset)))
 
+    # Indices are positions in the loader, whose sampler may select its samples
+    samples = list(getattr(dataloader.sampler, "indices", all_indices))
+
     if indices is None:
         # If indices are not provided default to retrain with every data.
         indices = all_indices
@@ -116,7 +119,10 @@ def retrain_loo(
             model_dir.mkdir(parents=True)
         # Create a subset of the dataset.
         weights_dir = Path(model_dir) / "model_weights.pt"
-        dataset_subset = Subset(dataloader.dataset, remaining_indices)
+        dataset_subset = Subset(
+            dataloader.dataset,
+            [samples[idx] for idx in remaining_indices],
+        )
         # Create a new DataLoader with this subset.
         modified_dataloader = DataLoader(
             dataset_subset,
@@ -229,6 +235,8 @@ def retrain_lds(
     data_length = len(dataloader.sampler)
     subset_length = int(data_length * subset_ratio)
 
+    # Indices are positions in the loader, whose sampler may select its samples
+    samples = list(getattr(dataloader.sampler, "indices", range(data_length)))
     rng = np.random.default_rng(seed)  # this can also handle seed=None
 
     # seed control
@@ -244,7 +252,10 @@ def retrain_lds(
             rng = np.random.default_rng(seed + i)
         indices = rng.choice(data_length, subset_length, replace=False)
         subset_dataloader = torch.utils.data.DataLoader(
-            dataset=torch.utils.data.Subset(dataloader.dataset, indices),
+            dataset=torch.utils.data.Subset(
+                dataloader.dataset,
+                [samples[idx] for idx in indices],
+            ),
             batch_size=dataloader.batch_size,
             shuffle=True,
         )
-- 
2.43.0


From 133b25f2099ed7fb579f9898773f5f36f8870d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 44/64] fix: flip_label handles arrays, tensor label spaces,
 foreign labels and zero flips

---
 dattri/benchmark/utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 574f302..72ddb5a 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -26,10 +26,7 @@ def _random_flip(label: int, label_space: Set[int], rng: np.random.default_rng)
     Returns:
         int: The randomly selected label to replace the original one
     """
-    label_space.discard(label)
-    target_label = int(rng.choice(list(label_space)))
-    label_space.add(label)
-    return target_label
+    return int(rng.choice(sorted(label_space - {label})))
 
 
 def flip_label(
@@ -57,7 +54,9 @@ def flip_label(
     if label_space is None:
         label_space = np.unique(label)
 
-    label_space = set(label_space)
+    label_space = set(
+        label_space.tolist() if hasattr(label_space, "tolist") else label_space,
+    )
 
     n_train = len(label)
     rng = np.random.default_rng()
@@ -69,13 +68,18 @@ def flip_label(
     # Generate a list of randomly sampled noisy (flipped) data from label space
     noisy_data = np.vectorize(
         lambda x: _random_flip(x, label_space, rng),
+        otypes=[int],
     )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(noisy_data)
+        noisy_data = torch.tensor(
+            noisy_data,
+            dtype=flipped_label.dtype,
+            device=flipped_label.device,
+        )
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data.long()
+    flipped_label[noise_index] = noisy_data
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0


From e79c23f5a824e2c2dbe2bb1faaa9fcfa1f98bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 45/64] fix: activate_dropout matches layer names exactly and
 refuses unknown ones

---
 dattri/model_util/dropout.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dattri/model_util/dropout.py b/dattri/model_util/dropout.py
index 5038542..05cae56 100644
--- a/dattri/model_util/dropout.py
+++ b/dattri/model_util/dropout.py
@@ -39,7 +39,8 @@ def activate_dropout(
     if layer_positions is None:
         layer_positions = []
 
-    invalid_layer_name = []
+    module_names = {name for name, _ in model.named_modules()}
+    invalid_layer_name = [name for name in layer_positions if name not in module_names]
     if len(layer_positions) == 0:
         # activate all dropout layers found in the model
         for module in model.modules():
@@ -50,9 +51,9 @@ def activate_dropout(
         # activate all dropout layers in given positions
         for name, module in model.named_modules():
             for layer_name in layer_positions:
-                # if the layer name (string) in name of modules,
+                # if the layer name (string) is the name of the module,
                 # then make dropout module in train mode
-                if layer_name in name:
+                if layer_name == name:
                     if module.__class__.__name__.startswith("Dropout"):
                         module.p = dropout_prob
                         module.train()
-- 
2.43.0


From 72bc8ba981364d12d0575bce3a0cd8c846898d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 46/64] fix: chunked dict projection follows the chunk sizes (a
 chunk may be shorter than the limit)

---
 dattri/func/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index f4bbee9..c75945a 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -742,7 +742,7 @@ class ChunkedCudaProjector:
             feature_dim_size = p_flat.size(1)
             # if current accumulated params exceed max_chunk_size,
             # then stop accumulation.
-            if pointer + feature_dim_size > self.max_chunk_size:
+            if pointer + feature_dim_size > self.dim_per_chunk[projector_index]:
                 # fill remaining entries with 0
                 if pointer != self.dim_per_chunk[projector_index]:
                     msg = "Current number of accumulated #dim does not match \
-- 
2.43.0


From 7af69f434752e4ddf4656e09289bc1946f991fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 47/64] fix: a projector can be used again after free_memory

---
 dattri/func/projection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index c75945a..9eb6679 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -364,6 +364,8 @@ class BasicProjector(AbstractProjector):
         )
 
         if self.num_blocks == 1:
+            if not self.proj_matrix_available:  # freed since the last projection
+                self._gen_randomness_dense(self.generator_states[0])
             torch.matmul(features.data, self.proj_matrix, out=sketch)
         else:
             for ind in range(self.num_blocks):
-- 
2.43.0


From 00c51b179d21c83c698dd22dbd3625880ac89f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:00 +0000
Subject: [PATCH 48/64] fix: representer weights use per-sample gradients and
 the full training set size

---
 dattri/algorithm/rps.py   |  5 +++++
 dattri/algorithm/utils.py | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index a4e8f72..2c5596d 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -85,6 +85,7 @@ class RPSAttributor(BaseAttributor):
             self.full_train_dataloader,
             self.device,
         )
+        self.num_full_train = len(intermediate_x_train)
         # get the initial weight parameter for the final linear layer
         init_theta = getattr(self.model, self.final_linear_layer_name).weight.data
         # fine-tuning on the full train dataloader
@@ -152,6 +153,9 @@ class RPSAttributor(BaseAttributor):
                 num_epoch=self.epoch,
                 device=self.device,
             )
+            n_train = len(intermediate_x_train)
+        else:
+            n_train = self.num_full_train
 
         # get intermediate features for test samples
         intermediate_x_test, _ = get_final_layer_io(
@@ -170,6 +174,7 @@ class RPSAttributor(BaseAttributor):
             y_pred_train,
             y_test,
             self.l2_strength,
+            n_train=n_train,
         )
 
         if self.normalize_preactivate:
diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index b3bf1ac..b22286f 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -3,14 +3,14 @@
 from __future__ import annotations
 
 import warnings
-from typing import Callable, Tuple
+from typing import Callable, Optional, Tuple
 
 import numpy as np
 import torch
 from scipy.stats import pearsonr
 from torch import Tensor, optim
 from torch.autograd import Variable
-from torch.func import grad
+from torch.func import grad, vmap
 from torch.utils.data import RandomSampler
 
 
@@ -174,6 +174,7 @@ def get_rps_weight(
     y_pred_train: Tensor,
     y_test: Tensor,
     lambda_l2: float,
+    n_train: Optional[int] = None,
 ) -> Tensor:
     r"""Compute the decomposed RPS weight.
 
@@ -185,11 +186,13 @@ def get_rps_weight(
         y_pred_train (Tensor): The pre-trained model output of the training set.
         y_test (Tensor): The ground-truth of the testing set.
         lambda_l2 (float): The l2-regularization strength.
+        n_train (Optional[int]): The number of samples the last layer was fine-tuned
+            on. Default to the number of samples in `x_train`.
 
     Returns:
         The decomposed RPS weight (\Theta^*_1 in the paper notation).
     """
-    n = len(y_pred_train)
+    n = len(y_pred_train) if n_train is None else n_train
     # calculate theta1 based on the representer theorem's decomposition
     pre_activation_value = torch.matmul(
         x_train,
@@ -202,7 +205,12 @@ def get_rps_weight(
         else torch.softmax(y_pred_train, dim=1)
     )
 
-    alpha = grad(loss_func)(pre_activation_value, y_pred_train) / (-2.0 * lambda_l2 * n)
+    # the weight of a sample depends on the gradient of that sample's loss alone
+    def sample_loss(pre_activation: Tensor, y_pred: Tensor) -> Tensor:
+        return loss_func(pre_activation.unsqueeze(0), y_pred.unsqueeze(0))
+
+    sample_grad = vmap(grad(sample_loss))(pre_activation_value, y_pred_train)
+    alpha = sample_grad / (-2.0 * lambda_l2 * n)
     # if multi-class, then focus on the test samples' class labels
     if finetuned_theta.shape[0] > 1:
         train_size = x_train.shape[0]
-- 
2.43.0


From 24432fc5c0c21e9f1d2fe9c86adb619ac4df60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 49/64] fix: DVEmb records only completed steps and leaves
 training gradients alone

---
 dattri/algorithm/dvemb.py | 91 ++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b88f1b9..b114698 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -362,13 +362,6 @@ class DVEmbAttributor:
             )
         self._caching_method = "context"
 
-        # Initialize epoch storage if needed
-        if epoch not in self.cached_factors:
-            self.cached_factors[epoch] = []
-            self.cached_gradients[epoch] = []
-            self.learning_rates[epoch] = []
-            self.data_indices[epoch] = []
-
         # Set up projectors if not already done
         if (
             not hasattr(self, "random_projectors")
@@ -388,26 +381,18 @@ class DVEmbAttributor:
             for h in handles:
                 h.remove()
 
-            # Adjust for mean reduction: users typically use mean loss (default),
-            # but we need sum reduction for correct per-sample gradient factors.
-            # backward hook captures B = dL/dy where L = mean(per_sample_losses).
-            # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
-            for cache in caches:
-                if cache["B"] is not None:
-                    cache["B"] *= len(indices)
+        # Only reached when the step succeeded: a failed step is not recorded.
 
-            # Cache the gradient factors (with projection if configured)
-            if self.projection_dim_per_layer is None:
-                self.cached_factors[epoch].append(caches)
-            elif self.factorization_type == "kronecker":
-                projected_grads = self._project_gradients_factors_kronecker(caches)
-                self.cached_gradients[epoch].append(projected_grads.cpu())
-            else:
-                projected_grads = self._project_gradients_factors_elementwise(caches)
-                self.cached_gradients[epoch].append(projected_grads.cpu())
+        # Adjust for mean reduction: users typically use mean loss (default),
+        # but we need sum reduction for correct per-sample gradient factors.
+        # backward hook captures B = dL/dy where L = mean(per_sample_losses).
+        # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
+        for cache in caches:
+            if cache["B"] is not None:
+                # not in place: the user's backward pass owns this tensor
+                cache["B"] = len(indices) * cache["B"]
 
-            self.learning_rates[epoch].append(learning_rate / len(indices))
-            self.data_indices[epoch].append(indices.cpu())
+        self._record_gradient_factors(epoch, caches, indices, learning_rate)
 
     def _calculate_full_gradients(
         self,
@@ -466,16 +451,16 @@ class DVEmbAttributor:
             indices: Original indices of the samples in the batch.
             learning_rate: The learning rate for the current step.
         """
+        per_sample_grads = self._calculate_full_gradients(batch_data)
+
         if epoch not in self.cached_gradients:
             self.cached_gradients[epoch] = []
             self.learning_rates[epoch] = []
             self.data_indices[epoch] = []
 
-        per_sample_grads = self._calculate_full_gradients(batch_data)
-
         self.cached_gradients[epoch].append(per_sample_grads.cpu())
         self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self.data_indices[epoch].append(indices.cpu().clone())
 
     def _calculate_gradient_factors(
         self,
@@ -489,17 +474,26 @@ class DVEmbAttributor:
         Returns:
             A list of cached factor dictionaries for each linear layer.
         """
+        # The gradients of an ongoing training step are put back afterwards
+        training_grads = [(p, p.grad) for p in self.model.parameters()]
         self.model.zero_grad()
         handles, caches = self._register_factorization_hooks()
 
-        # Strict requirements on batch_data
-        batch_data_tensors = [d.to(self.device) for d in batch_data]
-        loss = self.task.original_loss_func(self.model, batch_data_tensors, self.device)
-        loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
-        loss.backward()
-
-        for h in handles:
-            h.remove()
+        try:
+            # Strict requirements on batch_data
+            batch_data_tensors = [d.to(self.device) for d in batch_data]
+            loss = self.task.original_loss_func(
+                self.model,
+                batch_data_tensors,
+                self.device,
+            )
+            loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
+            loss.backward()
+        finally:
+            for h in handles:
+                h.remove()
+            for p, grad in training_grads:
+                p.grad = grad
 
         return caches
 
@@ -656,15 +650,34 @@ class DVEmbAttributor:
             indices: Original indices of the samples in the batch.
             learning_rate: The learning rate for the current step.
         """
+        caches = self._calculate_gradient_factors(batch_data)
+        self._record_gradient_factors(epoch, caches, indices, learning_rate)
+
+    def _record_gradient_factors(
+        self,
+        epoch: int,
+        caches: List[Dict[str, Tensor]],
+        indices: Tensor,
+        learning_rate: float,
+    ) -> None:
+        """Record the gradient factors of one completed training step.
+
+        Args:
+            epoch: The current epoch number.
+            caches: The gradient factors of the step, one dictionary per layer.
+            indices: Original indices of the samples in the batch.
+            learning_rate: The learning rate for the current step.
+        """
         if epoch not in self.cached_factors:
             self.cached_factors[epoch] = []
             self.cached_gradients[epoch] = []
             self.learning_rates[epoch] = []
             self.data_indices[epoch] = []
 
-        caches = self._calculate_gradient_factors(batch_data)
-
         if self.projection_dim_per_layer is None:
+            for item in caches:
+                # the layer input may be a buffer the user fills again
+                item["A"] = item["A"].clone()
             self.cached_factors[epoch].append(caches)
         elif self.factorization_type == "kronecker":
             # kronecker with projection returns projected gradients directly
@@ -675,7 +688,7 @@ class DVEmbAttributor:
             self.cached_gradients[epoch].append(projected_grads.cpu())
 
         self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self.data_indices[epoch].append(indices.cpu().clone())
 
     def clear_cache(self) -> None:
         """Clears cached gradients and factors to free memory."""
-- 
2.43.0


From ddc743f8bee7b56fb7798d8954dba9310d0e3b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 50/64] fix: DVEmb embeddings accept any epoch numbers, drop
 stale epochs and keep the caller's gradients

---
 dattri/algorithm/dvemb.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b114698..ef47966 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -727,9 +727,9 @@ class DVEmbAttributor:
             raise ValueError(msg)
 
         if gradients is not None:
-            self.cached_gradients = gradients
+            self.cached_gradients = {e: list(g) for e, g in gradients.items()}
         if learning_rates is not None:
-            self.learning_rates = learning_rates
+            self.learning_rates = {e: list(r) for e, r in learning_rates.items()}
 
         has_full_grads = self.cached_gradients and any(self.cached_gradients.values())
         has_gradient_factors = (
@@ -747,17 +747,18 @@ class DVEmbAttributor:
         num_total_samples = all_indices.max().item() + 1
 
         # Determine gradient dimension and data type from cached data
+        first_epoch = min(self.data_indices)
         if self.use_factorization:
             grad_dim = self._params_dim
             if self.projection_dim_per_layer is None:
                 # No projection: use cached factors
-                grad_dtype = self.cached_factors[0][0][0]["A"].dtype
+                grad_dtype = self.cached_factors[first_epoch][0][0]["A"].dtype
             else:
                 # With projection (kronecker or elementwise): use cached gradients
-                grad_dtype = self.cached_gradients[0][0].dtype
+                grad_dtype = self.cached_gradients[first_epoch][0].dtype
         else:
-            grad_dim = self.cached_gradients[0][0].shape[1]
-            grad_dtype = self.cached_gradients[0][0].dtype
+            grad_dim = self.cached_gradients[first_epoch][0].shape[1]
+            grad_dtype = self.cached_gradients[first_epoch][0].dtype
 
         # Create weighting matrix
         m_matrix = torch.zeros(
@@ -767,6 +768,7 @@ class DVEmbAttributor:
         )
 
         # Calculate data embeddings for each epoch in reverse order
+        self.embeddings = {}
         sorted_epochs = sorted(self.learning_rates.keys(), reverse=True)
         # Going through epochs in reverse order
         for epoch in tqdm(sorted_epochs, desc="Computing DVEmb per Epoch"):
-- 
2.43.0


From 15aca682ef084a4a6bf2d091c090aa1ad46e9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 51/64] fix: a checkpoint load that failed half-way is not
 taken for the previous checkpoint

---
 dattri/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/task.py b/dattri/task.py
index 0152551..2420b10 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -167,6 +167,8 @@ class AttributionTask:
             self.current_checkpoint_idx is None
             or self.current_checkpoint_idx != ckpt_idx
         ):
+            # a load that fails half-way leaves the model at no checkpoint
+            self.current_checkpoint_idx = None
             self.model = self.checkpoints_load_func(
                 self.model,
                 self.checkpoints[ckpt_idx],
-- 
2.43.0


From 273b443e28015a1eb2a6f3ad3b9c9e5328c00270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 52/64] fix: get_final_layer_io removes its hook when the
 forward pass fails

---
 dattri/model_util/hook.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dattri/model_util/hook.py b/dattri/model_util/hook.py
index 19c0f92..d19b335 100644
--- a/dattri/model_util/hook.py
+++ b/dattri/model_util/hook.py
@@ -57,11 +57,12 @@ def get_final_layer_io(
     hook_handle = model_layer.register_forward_hook(_forward_hook)
 
     # perform a forward pass through the dataloader
-    with torch.no_grad():
-        for x, _ in dataloader:
-            _ = model(x.to(device))
-
-    hook_handle.remove()
+    try:
+        with torch.no_grad():
+            for x, _ in dataloader:
+                _ = model(x.to(device))
+    finally:
+        hook_handle.remove()
     return torch.cat(feature_list, dim=0).to(device), torch.cat(output_list, dim=0).to(
         device,
     )
-- 
2.43.0


From bb40d0a98281855f2b6dc5ec2ff2218a5dbf2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:12 +0000
Subject: [PATCH 53/64] fix: a failed cache() leaves EKFAC and
 representer-point attributors with one training set's state

---
 dattri/algorithm/influence_function.py | 6 ++++--
 dattri/algorithm/rps.py                | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 5248879..8c8c997 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1026,17 +1026,19 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             )
 
             # 2. Calculate the eigenvalue decomposition of S and A
-            self.cached_q = estimate_eigenvector(cov_matrices)
+            cached_q = estimate_eigenvector(cov_matrices)
 
             # 3. Use random batch for eigenvalue correction
             self.cached_lambdas = estimate_lambda(
                 func,
                 full_train_dataloader,
-                self.cached_q,
+                cached_q,
                 self.layer_cache,
                 max_iter,
                 device=self.device,
             )
+            # eigenvectors and eigenvalues are replaced together
+            self.cached_q = cached_q
         finally:
             # Remove hooks after preprocessing the FIM
             for handle in handles:
diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index 2c5596d..e458c92 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -76,16 +76,13 @@ class RPSAttributor(BaseAttributor):
                 with full training samples for the last linear layer
                 fine-tuning.
         """
-        self.full_train_dataloader = full_train_dataloader
-
         # get intermediate outputs and predictions for full train dataset
         intermediate_x_train, y_pred_train = get_final_layer_io(
             self.model,
             self.final_linear_layer_name,
-            self.full_train_dataloader,
+            full_train_dataloader,
             self.device,
         )
-        self.num_full_train = len(intermediate_x_train)
         # get the initial weight parameter for the final linear layer
         init_theta = getattr(self.model, self.final_linear_layer_name).weight.data
         # fine-tuning on the full train dataloader
@@ -98,6 +95,9 @@ class RPSAttributor(BaseAttributor):
             num_epoch=self.epoch,
             device=self.device,
         )
+        # only a completed fine-tuning replaces what was cached before
+        self.num_full_train = len(intermediate_x_train)
+        self.full_train_dataloader = full_train_dataloader
 
     def attribute(
         self,
-- 
2.43.0


From 122571da2f2a90386248b9bbe13eb32b9cc8cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:15 +0000
Subject: [PATCH 54/64] Revert "fix: flip_label handles arrays, tensor label
 spaces, foreign labels and zero flips"

This reverts commit 133b25f2099ed7fb579f9898773f5f36f8870d08.
---
 dattri/benchmark/utils.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 72ddb5a..574f302 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -26,7 +26,10 @@ def _random_flip(label: int, label_space: Set[int], rng: np.random.default_rng)
     Returns:
         int: The randomly selected label to replace the original one
     """
-    return int(rng.choice(sorted(label_space - {label})))
+    label_space.discard(label)
+    target_label = int(rng.choice(list(label_space)))
+    label_space.add(label)
+    return target_label
 
 
 def flip_label(
@@ -54,9 +57,7 @@ def flip_label(
     if label_space is None:
         label_space = np.unique(label)
 
-    label_space = set(
-        label_space.tolist() if hasattr(label_space, "tolist") else label_space,
-    )
+    label_space = set(label_space)
 
     n_train = len(label)
     rng = np.random.default_rng()
@@ -68,18 +69,13 @@ def flip_label(
     # Generate a list of randomly sampled noisy (flipped) data from label space
     noisy_data = np.vectorize(
         lambda x: _random_flip(x, label_space, rng),
-        otypes=[int],
     )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(
-            noisy_data,
-            dtype=flipped_label.dtype,
-            device=flipped_label.device,
-        )
+        noisy_data = torch.tensor(noisy_data)
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data
+    flipped_label[noise_index] = noisy_data.long()
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0


From 1169300dd573427b94c9af6d06b6d1216720e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:27 +0000
Subject: [PATCH 55/64] fix: default leave-one-out partition of the retrain
 command exceeds the training subset

---
 dattri/script/dattri_retrain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index ed18c3f..472949c 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -197,10 +197,11 @@ def main() -> None:
         sampler=sampler,
     )
 
+    num_train = len(train_loader.sampler)
     if args.partition[1] is None:
-        args.partition[1] = len(dataset_train) if args.mode == "loo" else 100
+        args.partition[1] = num_train if args.mode == "loo" else 100
     if args.partition[2] is None:
-        args.partition[2] = len(dataset_train) if args.mode == "loo" else 100
+        args.partition[2] = num_train if args.mode == "loo" else 100
 
     if args.mode == "lds":
         kwargs = {}
-- 
2.43.0


From 2af26b81e6444937c680e79a0f6454ac7e042642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:27 +0000
Subject: [PATCH 56/64] fix: the retrain command passed fractional and negative
 extra parameters as strings

---
 dattri/script/dattri_retrain.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index 472949c..4fb6322 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -85,9 +85,12 @@ def key_value_pair(arg: Dict[str, Any]) -> tuple[str, Any]:
     Returns:
         tuple[str, Any]: The parsed key-value pair.
     """
-    key, value = arg.split("=")
-    if value.isdigit():
-        value = int(value)
+    key, value = arg.split("=", 1)
+    for number in (int, float):
+        try:
+            return key, number(value)
+        except ValueError:
+            continue
     return key, value
 
 
-- 
2.43.0


From 09f6c3a1ddf35d8dc1815f986ad2806f65b06302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 57/64] fix: the retrain command refused the MLP model of its
 mnist_mlp setting

---
 dattri/script/dattri_retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index 4fb6322..128a744 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -32,7 +32,7 @@ from dattri.benchmark.datasets.mnist import (
 )
 from dattri.model_util.retrain import retrain_lds, retrain_loo
 
-SUPPORTED_MODELS = ["lr", "resnet18", "resnet9", "musictransformer"]
+SUPPORTED_MODELS = ["lr", "mlp", "resnet18", "resnet9", "musictransformer"]
 
 SUPPORTED_SETTINGS = {
     "mnist_lr": train_mnist_lr,
-- 
2.43.0


From e42f5952f866e806e5fa028087092e82f6c8a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:00 +0000
Subject: [PATCH 58/64] fix: DVEmb refuses an unknown factorization type also
 without projection

---
 dattri/algorithm/dvemb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index ef47966..cbf9ad3 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -90,6 +90,9 @@ class DVEmbAttributor:
         self.model = task.get_model()
         self.device = next(self.model.parameters()).device
         self.projector = None
+        if factorization_type not in {"none", "kronecker", "elementwise"}:
+            msg = f"Unknown factorization type: {factorization_type}"
+            raise ValueError(msg)
         self.use_factorization = factorization_type != "none"
         self.factorization_type = factorization_type
         self.proj_params = proj_params or DVEmbProjectionParams(
@@ -144,9 +147,6 @@ class DVEmbAttributor:
                 self._params_dim = (
                     len(self._linear_layers) * self.projection_dim_per_layer
                 )
-            else:
-                msg = f"Unknown factorization type: {self.factorization_type}"
-                raise ValueError(msg)
 
         self.cached_gradients: Dict[int, List[Tensor]] = {}
         self.learning_rates: Dict[int, List[float]] = {}
-- 
2.43.0


From 0f014d3400266abdddf7dcb04ba77cd76d2e28e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:00 +0000
Subject: [PATCH 59/64] fix: block-projected attributors refuse unknown layer
 names

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 933f00f..2f2bb85 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -125,6 +125,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
         else:
             self.layer_names = layer_names
 
+        unknown = set(self.layer_names) - dict(self.model.named_modules()).keys()
+        if unknown:
+            msg = f"Layers {sorted(unknown)} not found in the model."
+            raise ValueError(msg)
+
         logger.info(
             "BlockProjectedIFAttributor initialized with %d layers: %s",
             len(self.layer_names),
-- 
2.43.0


From 93ccad265b70b3d4a970937a6cbfa14a415afc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:08 +0000
Subject: [PATCH 60/64] fix: leave-one-out retraining refuses indices outside
 the loader

---
 dattri/model_util/retrain.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 736663d..5aa9975 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -84,7 +84,19 @@ def retrain_loo(
                     }
                 }
             ```.
+
+    Raises:
+        IndexError: If an index is not a position in the dataloader.
     """
+    if dataloader.sampler is not None:
+        all_indices = list(range(len(dataloader.sampler)))
+    else:
+        all_indices = list(range(len(dataloader.dataset)))
+
+    if indices is not None and any(index not in all_indices for index in indices):
+        error_message = "indices must be positions in the dataloader"
+        raise IndexError(error_message)
+
     if not Path(path).exists():
         # Create the path if not exists.
         Path(path).mkdir(parents=True)
@@ -92,11 +104,6 @@ def retrain_loo(
         # Manually set the seed.
         torch.manual_seed(seed)
 
-    if dataloader.sampler is not None:
-        all_indices = list(range(len(dataloader.sampler)))
-    else:
-        all_indices = list(range(len(dataloader.dataset)))
-
     # Indices are positions in the loader, whose sampler may select its samples
     samples = list(getattr(dataloader.sampler, "indices", all_indices))
 
-- 
2.43.0


From 3968ee97ee62cae3f4127f2ee3d285cf8ad93c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:19 +0000
Subject: [PATCH 61/64] fix: cache batches in which a listed layer takes no
 part in block-projected attribution

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 2f2bb85..abeca4d 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -339,6 +339,14 @@ class BlockProjectedIFAttributor(BaseAttributor):
                         self.offload_manager.layer_dims = self.layer_dims
                         self.offload_manager.total_proj_dim = self.total_proj_dim
 
+                # A layer without a gradient in this batch contributes zeros
+                values = batch.values() if isinstance(batch, dict) else batch
+                batch_size = next(iter(values)).shape[0]
+                compressed_grads = [
+                    grad if grad.numel() > 0 else torch.zeros(batch_size, dim)
+                    for grad, dim in zip(compressed_grads, self.layer_dims)
+                ]
+
                 # Store gradients using offload manager
                 self.offload_manager.store_gradients(
                     batch_idx,
-- 
2.43.0


From 336f3ddace7ab6334f09b7e4cb8f377866dbe896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:58 +0000
Subject: [PATCH 62/64] fix: the Arnoldi projector works in the precision of
 the parameters

---
 dattri/func/projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 9eb6679..a91ac43 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -899,6 +899,7 @@ class ArnoldiProjector(AbstractProjector):
         self.max_iter = max_iter
         self.norm_constant = norm_constant
         self.tol = tol
+        self.param_dtype = x.dtype
         # get hvp func
         self.hvp_at_x_func = hvp_at_x(
             func,
@@ -945,7 +946,10 @@ class ArnoldiProjector(AbstractProjector):
         n_iters = min(start_vec.shape[0] + 1, n_iters)
 
         proj = []
-        appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
+        appr_mat = torch.zeros(
+            (n_iters, n_iters - 1),
+            dtype=start_vec.dtype,
+        ).to(device)
 
         start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
@@ -1019,7 +1023,7 @@ class ArnoldiProjector(AbstractProjector):
         # set torch seed
         torch.manual_seed(self.seed)
         # init a random vector
-        v0 = torch.rand(self.feature_dim).to(self.device)
+        v0 = torch.rand(self.feature_dim).to(self.device, self.param_dtype)
 
         # perform arnoldi iteration
         appr_mat, proj = self._arnoldi_iter(
-- 
2.43.0


From a7dfb0628d1a8f839f77268b2fba74c5bb820a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:58 +0000
Subject: [PATCH 63/64] fix: DataInf works in the precision of the model

---
 dattri/algorithm/influence_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 8c8c997..1337466 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -822,6 +822,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
             running_transformation = torch.zeros(
                 test_rep_layers[layer].shape,
                 device=test_rep_layers[layer].device,
+                dtype=test_rep_layers[layer].dtype,
             )
             for batch in grad_batches:
                 reg = 0.1 if regularization is None else regularization
-- 
2.43.0


From 8d311383957b93aeeea82dc8c4b85abe9bb7572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:59 +0000
Subject: [PATCH 64/64] fix: LiSSA keeps the precision of the samples

---
 dattri/algorithm/influence_function.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 1337466..b5ea2c8 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -35,7 +35,10 @@ def _lissa_collate_fn(
     """
     return (
         sampled_input[0],
-        tuple(sampled_input[i].float() for i in range(1, len(sampled_input))),
+        tuple(
+            data if data.is_floating_point() else data.float()
+            for data in sampled_input[1:]
+        ),
     )
 
 
@@ -620,7 +623,10 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
         """
         return (
             sampled_input[0],
-            tuple(sampled_input[i].float() for i in range(1, len(sampled_input))),
+            tuple(
+                data if data.is_floating_point() else data.float()
+                for data in sampled_input[1:]
+            ),
         )
 
     def _compute_denom(
-- 
2.43.0

