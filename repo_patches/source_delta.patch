From 5bf796b4dc0f00d7c5a1d6a20378b15770ddad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 01/20] fix: keep exactly zero matrix products finite when
 rescaling

---
 torchmps/mps_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..0c498b1 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -106,6 +106,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
         # Rescale vectors, update log_scale
         rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = rescale + (rescale == 0)  # Leave zero vectors unchanged
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -293,6 +294,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = rescales + (rescales == 0)  # Leave zero matrices unchanged
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -326,6 +328,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = rescale + (rescale == 0)  # Leave zero products unchanged
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
-- 
2.43.0


From 52d18c3d50673efb4cc94760173f960b015a04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 02/20] fix: get_log_norm with complex cores and a real lambda
 matrix

---
 torchmps/mps_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 0c498b1..52b9d2b 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -430,6 +430,10 @@ def get_log_norm(
     assert not (uniform and length is None)
     fixed_len = not uniform or length != -1
 
+    # Promote lamb_mat to complex dtype if core_tensor is complex
+    if lamb_mat is not None and core_tensor.is_complex():
+        lamb_mat = lamb_mat.to(core_tensor.dtype)
+
     # Initialize all variables needed for log norm calculation
     uniform = core_tensor.ndim == 3
     left_vec, r_vec = boundary_vecs
-- 
2.43.0


From 7944fe31be91f2b56f4b8be85241f43fa17e9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 03/20] fix: normalize probabilities of models with both bias
 and embedding

---
 torchmps/embeddings.py | 18 ++++++++++++++++++
 torchmps/prob_mps.py   | 12 ++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..06e95fc 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -110,6 +110,8 @@ class TrainableEmbedding(nn.Module):
             # Get rank-1 matrices for each point, then numerically integrate
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.trapz(emb_mats, points, dim=0)
+            bias_mats = bias_extend(emb_vecs)
+            self.bias_lamb_mat = torch.trapz(bias_mats, points, dim=0)
 
         else:
             points = torch.arange(self.domain.max_val).long()
@@ -121,6 +123,7 @@ class TrainableEmbedding(nn.Module):
             # Get rank-1 matrices for each point, then sum together
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.sum(emb_mats, dim=0)
+            self.bias_lamb_mat = torch.sum(bias_extend(emb_vecs), dim=0)
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
@@ -183,6 +186,8 @@ class FixedEmbedding(nn.Module):
             # Get rank-1 matrices for each point, then numerically integrate
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.trapz(emb_mats, points, dim=0)
+            bias_mats = bias_extend(emb_vecs)
+            self.bias_lamb_mat = torch.trapz(bias_mats, points, dim=0)
 
         else:
             points = torch.arange(self.domain.max_val).long()
@@ -194,6 +199,7 @@ class FixedEmbedding(nn.Module):
             # Get rank-1 matrices for each point, then sum together
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.sum(emb_mats, dim=0)
+            self.bias_lamb_mat = torch.sum(bias_extend(emb_vecs), dim=0)
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
@@ -214,6 +220,18 @@ class FixedEmbedding(nn.Module):
         return self.emb_fun(input_data)
 
 
+def bias_extend(emb_vecs):
+    """
+    Get rank-1 matrices of embedded vectors extended by a last component of 1
+
+    The extra component multiplies the bias matrix of an MPS, which is added
+    to the core slices independently of the embedded input.
+    """
+    ones = torch.ones_like(emb_vecs[:, :1])
+    ext_vecs = torch.cat((emb_vecs, ones), dim=1)
+    return einsum("bi,bj->bij", ext_vecs, ext_vecs.conj())
+
+
 unit_interval = DataDomain(continuous=True, max_val=1, min_val=0)
 
 
diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..37e6df5 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -252,6 +252,12 @@ class ProbMPS(nn.Module):
         # Account for non-trivial lambda function in the embedding
         lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
+        # Embedded inputs multiply the core slices, but not the bias matrix
+        if self.use_bias and self.embedding is not None:
+            bias_slice = self.bias_mat.expand_as(self.core_tensors[..., :1, :, :])
+            core_tensors = torch.cat((self.core_tensors, bias_slice), dim=-3)
+            lamb_mat = self.embedding.bias_lamb_mat
+
         return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)
 
     @property
@@ -455,6 +461,12 @@ class ProbUnifMPS(ProbMPS):
         # Account for non-trivial lambda function in the embedding
         lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
+        # Embedded inputs multiply the core slices, but not the bias matrix
+        if self.use_bias and self.embedding is not None:
+            bias_slice = self.bias_mat.expand_as(self.core_tensors[..., :1, :, :])
+            core_tensors = torch.cat((self.core_tensors, bias_slice), dim=-3)
+            lamb_mat = self.embedding.bias_lamb_mat
+
         return get_log_norm(
             core_tensors, self.edge_vecs, lamb_mat=lamb_mat, length=data_len
         )
-- 
2.43.0


From b46913cadf7fb6a5d95ac98bdf89e088b1e28ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 04/20] fix: register parameters of trainable embeddings and
 keep their normalization current

---
 torchmps/embeddings.py | 11 ++++++++---
 torchmps/prob_mps.py   |  8 ++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 06e95fc..78c48f3 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -86,11 +86,16 @@ class TrainableEmbedding(nn.Module):
         super().__init__()
         assert isinstance(emb_fun, nn.Module)
 
-        # Save defining data
+        # Save defining data, with emb_fun registered as a submodule
         self.domain = data_domain
+        self.emb_module = emb_fun
+
+    def emb_fun(self, input_data):
+        """
+        Apply the wrapped module to each of the scalar values in the input
+        """
         # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        return self.emb_module(input_data[..., None])
 
     def make_lambda(self, num_points: int = 1000):
         """
diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 37e6df5..0d550d7 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -249,6 +249,10 @@ class ProbMPS(nn.Module):
         else:
             core_tensors = self.core_tensors
 
+        # Normalization of trainable embedding depends on current parameters
+        if isinstance(self.embedding, TrainableEmbedding):
+            self.embedding.make_lambda()
+
         # Account for non-trivial lambda function in the embedding
         lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
@@ -458,6 +462,10 @@ class ProbUnifMPS(ProbMPS):
         else:
             core_tensors = self.core_tensors
 
+        # Normalization of trainable embedding depends on current parameters
+        if isinstance(self.embedding, TrainableEmbedding):
+            self.embedding.make_lambda()
+
         # Account for non-trivial lambda function in the embedding
         lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
-- 
2.43.0


From db987705805b5ea4e4c1a779f25b88e82bbdc2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 05/20] fix: use the current batch size when an output site
 comes first

---
 torchmps/torchmps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..7061dcd 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -7,6 +7,7 @@ import torch.nn as nn
 
 from .utils import init_tensor, svd_flex
 from .contractables import (
+    Contractable,
     SingleMat,
     MatRegion,
     OutputCore,
@@ -625,6 +626,9 @@ class LinearRegion(nn.Module):
         to_cuda = input_data.is_cuda
         device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
 
+        # Tensors without a batch index are expanded to the size of this batch
+        Contractable.global_bs = input_data.size(0)
+
         # For each module, pull out the number of pixels needed and call that
         # module's forward() method, putting the result in contractable_list
         ind = 0
-- 
2.43.0


From 167902af044f1f08d7ddc857e45fec7720a702f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 06/20] fix: evaluate input regions with a single site

---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 7061dcd..b639db5 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -635,7 +635,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if isinstance(module, (InputSite, MergedOutput)):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From 70e55a80d3c4f276724f09c8d12a3556d96b5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 07/20] fix: accept tensors as MPS paths

---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index b639db5..e434224 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -433,7 +433,7 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
-        if path:
+        if path is not None:
             assert isinstance(path, (list, torch.Tensor))
             assert len(path) == input_dim
 
@@ -469,7 +469,7 @@ class MPS(nn.Module):
                                  which act on different parts of the input.
         """
         # For custom paths, rearrange our input into the desired order
-        if self.path:
+        if self.path is not None:
             path_inputs = []
             for site_num in self.path:
                 path_inputs.append(input_data[:, site_num])
-- 
2.43.0


From 41c7e499a37cc32562354258a2cb165922f70fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 08/20] fix: shift the merge state of adaptive MPS with short
 input regions

---
 torchmps/torchmps.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index e434224..481546c 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -799,7 +799,7 @@ class MergedLinearRegion(LinearRegion):
 
         # Merge pairs of cores when possible (currently only with
         # InputSites), making sure to respect the offset for merging.
-        while True:
+        while len(merged_list) > 1:
             mod_num, site_num = 0, 0
             combined_list = []
 
@@ -974,6 +974,14 @@ class MergedLinearRegion(LinearRegion):
 
             return InputRegion(new_tensor)
 
+        # Combine two stray InputSites, return an InputRegion
+        elif (
+            not merging
+            and isinstance(left_core, InputSite)
+            and isinstance(right_core, InputSite)
+        ):
+            return InputRegion(torch.stack([left_core.tensor, right_core.tensor]))
+
         # If this situation doesn't belong to the above cases, return None
         else:
             return None
-- 
2.43.0


From 3befeede8fd0db023dcf04e4327bb0d57213f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 09/20] fix: keep zero cores finite when adaptive MPS shifts

---
 torchmps/torchmps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 481546c..d3d2f8a 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -917,10 +917,12 @@ class MergedLinearRegion(LinearRegion):
         log_scale = sum([sum(ns) for ns in log_norms])
         log_scale /= sum([len(ns) for ns in log_norms])
 
-        # Now rescale all cores so that their norms are roughly equal
-        scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
-        for core, these_scales in zip(unmerged_list, scales):
-            core.rescale_norm(these_scales)
+        # Now rescale all cores so that their norms are roughly equal, which is
+        # only possible when none of them is zero
+        if torch.isfinite(log_scale):
+            scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
+            for core, these_scales in zip(unmerged_list, scales):
+                core.rescale_norm(these_scales)
 
         # Add our unmerged module list as a new attribute and return
         # the updated bond dimensions
-- 
2.43.0


From e556c2e5615b1d3d7df1b1d90cab5026708c1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 10/20] fix: generate the stripe dataset with current numpy
 versions

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..f306409 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -316,7 +316,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=int)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From b046698fa2b438ca8957cb715821fab4d095dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 11/20] fix: cap min_random_eye at the smaller of two unequal
 bonds

---
 torchmps/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index f306409..6f25cad 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -223,6 +223,7 @@ def init_tensor(shape, bond_str, init_method):
                 bond_dims = [init_dim, init_dim]
             else:
                 init_dim = min(bond_dims)
+                bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
-- 
2.43.0


From ef3cd2beaa4d7d89dad443335cd8f6de40823304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 12/20] fix: use rel_std in normal_init

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 52b9d2b..cf28106 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -559,7 +559,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From b0a7dd97e98a3de0b6dfd2805c70646a5d1cc681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 13/20] fix: split complex tensors in svd_flex, keeping the
 dtype when padding

---
 torchmps/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 6f25cad..2393be1 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -85,7 +85,7 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
         # Get SVD and format so that left_mat * diag(svs) * right_mat = tensor
         left_mat, svs, right_mat = torch.svd(tensor)
         svs, _ = torch.sort(svs, descending=True)
-        right_mat = torch.t(right_mat)
+        right_mat = torch.t(right_mat).conj()
 
         # Decrease or increase our tensor sizes in the presence of max_D
         if max_D and len(svs) > max_D:
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = torch.zeros([max_D], dtype=svs.dtype)
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = torch.zeros([left_mat.size(0), max_D], dtype=left_mat.dtype)
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = torch.zeros([max_D, right_mat.size(1)], dtype=right_mat.dtype)
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From ac6b4763775c24339a988ed564090c4656f1cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 14/20] fix: embed sequences of different lengths before
 padding them

---
 torchmps/torchmps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index d3d2f8a..61d6289 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -178,11 +178,15 @@ class TI_MPS(nn.Module):
                     f"{self.use_bias}, self.fixed_bias={self.fixed_bias})"
                 )
 
+            # Embed everything (if needed), before any padding with zeros
+            if num_modes == 1:
+                input_data = [self.embed_input(s.unsqueeze(0))[0] for s in input_data]
+
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = torch.zeros(full_size)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -190,10 +194,6 @@ class TI_MPS(nn.Module):
             else:
                 batch_input = torch.stack(input_data)
 
-            # Embed everything (if needed) and return the batch tensor
-            if len(batch_input.shape) == 2:
-                batch_input = self.embed_input(batch_input)
-
             return batch_input
 
         else:
-- 
2.43.0


From da1d8f4fd5b2b56d4cb972d5ac4a28dce83ca1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 15/20] fix: multiply contractables by lists of contractables

---
 torchmps/contractables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..734fc2e 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -191,15 +191,15 @@ class ContractableList(Contractable):
         """
         # The input cannot be a composite contractable
         assert hasattr(contractable, "tensor")
-        output = contractable.tensor
+        output = contractable
 
         # Multiply by everything in ContractableList, in the correct order
         if rmul:
             for item in self.contractable_list:
-                output = item * output
+                output = output * item
         else:
             for item in self.contractable_list[::-1]:
-                output = output * item
+                output = item * output
 
         return output
 
-- 
2.43.0


From e615f30ccafa82e7ea9539bfb56fcfbb4984792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 16/20] fix: let other contractables handle products with an
 OutputMat

---
 torchmps/contractables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 734fc2e..5bd4887 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -371,7 +371,7 @@ class OutputMat(Contractable):
         Multiply with an edge vector along the shared linear index
         """
         if not isinstance(edge_vec, EdgeVec):
-            raise NotImplemented  # noqa: F901
+            return NotImplemented
         else:
             return super().__mul__(edge_vec, rmul)
 
-- 
2.43.0


From 3ec31a0c48b0f84ea79121bf636f1641ad699405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 17/20] fix: multiply scalars with edge objects and lists, and
 accept 0-dim scalars

---
 torchmps/contractables.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 5bd4887..ad45800 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -428,9 +428,9 @@ class Scalar(Contractable):
     def __init__(self, scalar):
         # Add dummy dimension if we have a torch scalar
         shape = list(scalar.shape)
-        if shape is []:
-            scalar = scalar.view([1])
-            shape = [1]
+        if shape == []:
+            scalar = scalar.view([1]).expand([Contractable.global_bs or 1])
+            shape = list(scalar.shape)
 
         # Check the input shape
         if len(shape) != 1:
@@ -446,6 +446,10 @@ class Scalar(Contractable):
         """
         Multiply a contractable by our scalar and return the result
         """
+        # Composite contractables (no tensor attribute) multiply item by item
+        if not hasattr(contractable, "tensor"):
+            return NotImplemented
+
         scalar = self.tensor
         tensor = contractable.tensor
         bond_str = contractable.bond_str
@@ -455,7 +459,9 @@ class Scalar(Contractable):
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-        if contract_class is not Contractable:
+        if contract_class in (EdgeVec, OutputMat):
+            return contract_class(out_tensor, "r" in bond_str)
+        elif contract_class is not Contractable:
             return contract_class(out_tensor)
         else:
             return Contractable(out_tensor, bond_str)
-- 
2.43.0


From 23b55681ccdf9bc7df4eb58ff37c183cda11a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 18/20] fix: accept rounding errors of large values in realify

---
 torchmps/utils2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index a3fb72b..fbb5576 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -183,8 +183,10 @@ def realify(tensor: Tensor) -> Tensor:
     Input must be approximately real, `realify` will raise error if not
     """
     if tensor.is_complex():
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=1e-4)
-        return tensor.real
+        real = tensor.real
+        # Rounding errors in the imaginary part are relative to the magnitude
+        assert torch.allclose(tensor, real.to(tensor.dtype), rtol=1e-4, atol=1e-4)
+        return real
     else:
         return tensor
 
-- 
2.43.0


From b9897df439da9bb35e779ff3d4d7b107c581372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 19/20] fix: random_eye tensors with the right bond before the
 left one

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 2393be1..298f29f 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -236,7 +236,7 @@ def init_tensor(shape, bond_str, init_method):
                 shape[i] if c in bond_chars else 1 for i, c in enumerate(bond_str)
             ]
             expand_shape = shape
-            bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
+            bond_dims = [shape[i] for i, c in enumerate(bond_str) if c in bond_chars]
 
         eye_tensor = torch.eye(bond_dims[0], bond_dims[1]).view(eye_shape)
         eye_tensor = eye_tensor.expand(expand_shape)
-- 
2.43.0


From 11cd35c5203746989975352999789d3d21abea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 20/20] fix: compare Lambda matrices to diagonal ones relative
 to their magnitude

---
 torchmps/embeddings.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 78c48f3..d2878e7 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -134,10 +134,12 @@ class TrainableEmbedding(nn.Module):
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
         self.lamb_mat = lamb_mat
 
-        # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        # Check if the computed matrix is diagonal or multiple of the identity,
+        # up to rounding errors relative to the magnitude of the matrix
+        atol = 1e-8 * lamb_mat.abs().max().item()
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                 self.lamb_mat = lamb_mat.mean()
             else:
                 self.lamb_mat = lamb_mat
@@ -210,10 +212,12 @@ class FixedEmbedding(nn.Module):
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
         self.lamb_mat = lamb_mat
 
-        # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        # Check if the computed matrix is diagonal or multiple of the identity,
+        # up to rounding errors relative to the magnitude of the matrix
+        atol = 1e-8 * lamb_mat.abs().max().item()
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                 self.lamb_mat = lamb_mat.mean()
             else:
                 self.lamb_mat = lamb_mat
-- 
2.43.0

