From b74c948030fe1a2e6ddbb92e633e45ca1362ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 01/27] fix: SketchContainer.__mul__ referenced an undefined
 name, so scaling a sketch always failed

---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From 6b91b7231c94bce386717c00bf69e5dac2e3b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 02/27] fix: MPO.__mul__ overwrote the first core of its
 operand

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..d209ad5 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From 84a6f83ca2e2d32dd913a18d3a8d8df17ed39863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 03/27] fix: CPTensor.size must be a property like in every
 other tensor

---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..b6511a2 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -685,6 +685,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From 74883924950640cf470d53ff61b16869aca7c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 04/27] fix: hmt_sketch(return_drm=True) raised a NameError

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..b6c4fd2 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -73,7 +73,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From 10a41de228ac5068b93a689e6556c2cc7ba11748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 05/27] fix: seed of the right DRM depended on the per-process
 string hash

---
 tt_sketch/sketch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index b6c4fd2..ac6b385 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import Dict, List, Optional, Sequence, Tuple, Type
+from zlib import crc32
 
 import numpy as np
 import numpy.typing as npt
@@ -129,7 +130,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -207,7 +208,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From e9c4088fb5dd25dc4a37dcc9ee3c887e48312122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/27] fix: TensorTrainDRM ignored the rank slice for dense
 and Tucker tensors

---
 tt_sketch/drm/tensor_train_drm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..f6b23c6 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -110,7 +110,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield partial_contraction.T[self.rank_min[0] : self.rank_max[0]]
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +119,7 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            yield partial_contraction.T[self.rank_min[mu] : self.rank_max[mu]]
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +128,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            tensor.rank[0], self.cores[0].shape[-1]
         )
-        yield partial_contraction
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]]
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +142,4 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            yield partial_contraction[:, self.rank_min[mu] : self.rank_max[mu]]
-- 
2.43.0


From d2f681beb87489a2129d02f04261857d13e6c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 07/27] fix: slices of a DRM lost its cores or its number of
 nonzeros per row

---
 tt_sketch/drm/sparse_sign_drm.py  | 9 ++++++++-
 tt_sketch/drm/tensor_train_drm.py | 5 ++++-
 tt_sketch/drm_base.py             | 5 +++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..494052b 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -1,4 +1,4 @@
-from typing import Optional, Tuple, Union
+from typing import Any, Dict, Optional, Tuple, Union
 
 import numpy as np
 from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign  # type: ignore
@@ -29,8 +29,15 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
             num_non_zero_per_row = self.true_rank
+        elif transpose:
+            # Store in same order as the ranks
+            num_non_zero_per_row = num_non_zero_per_row[::-1]
         self.nnz = num_non_zero_per_row
 
+    def _slice_kwargs(self) -> Dict[str, Any]:
+        nnz = self.nnz[::-1] if self.transpose else self.nnz
+        return {"num_non_zero_per_row": nnz}
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         d = len(tensor.shape)
diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index f6b23c6..e9bb9ee 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -1,4 +1,4 @@
-from typing import Optional, Tuple, Union
+from typing import Any, Dict, Optional, Tuple, Union
 
 import numpy as np
 from tt_sketch.drm_base import CanSlice, handle_transpose
@@ -57,6 +57,9 @@ class TensorTrainDRM(
         else:
             self.cores = kwargs["cores"]
 
+    def _slice_kwargs(self) -> Dict[str, Any]:
+        return {"cores": self.cores}
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         for mu, core in enumerate(self.cores):
diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..f3bd97e 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -106,8 +106,13 @@ class CanSlice(DRM):
             rank_min=start_rank,
             rank_max=end_rank,
             true_rank=new_true_rank,
+            **self._slice_kwargs(),
         )
 
+    def _slice_kwargs(self) -> Dict[str, Any]:
+        """Further constructor arguments a slice has to share with the DRM."""
+        return {}
+
 
 class CanIncreaseRank(CanSlice):
     """Mixin telling that the DRM supports rank increase and slicing.
-- 
2.43.0


From e953d33a4f454f515f01762aabca88d83bdf4869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 08/27] fix: SparseTensor.gather returned stale values after
 entries changed

---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index b6511a2..060cdbb 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
-from functools import cached_property
 from typing import (
     Iterable,
     List,
@@ -285,7 +284,7 @@ class SparseTensor(Tensor):
             out[i] = dic.get(ind, 0.0)
         return out
 
-    @cached_property
+    @property
     def dict(self) -> Dict[int, float]:
         dense_indices = np.ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
-- 
2.43.0


From 62e3be940311c457b8a580208bc2201ca71eefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 09/27] fix: trim_ranks stopped early for tensors of very high
 order

---
 tt_sketch/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..46498e1 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -137,7 +137,7 @@ def trim_ranks(
         ranks_trimmed[i] = min(r, dim_left, dim_right)
     changed = True
     ranks_trimmed = [1] + ranks_trimmed + [1]
-    for _ in range(100):
+    while changed:
         changed = False
         for i, d in enumerate(dims):
             if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
@@ -146,8 +146,6 @@ def trim_ranks(
             if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:
                 changed = True
                 ranks_trimmed[i] = d * ranks_trimmed[i + 1]
-        if not changed:
-            break
 
     return tuple(ranks_trimmed[1:-1])
 
-- 
2.43.0


From 60f6c94b495b1546cb7021e3f8f84c39d8392a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 10/27] fix: fast error of two zero tensors was NaN

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 060cdbb..295745f 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -68,7 +68,7 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From 2e4538af36526e50bee932193d29e636813fd94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 11/27] fix: TensorTrain.svdvals failed for ranks above mode
 size times next rank

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 295745f..ccf5cc2 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -498,7 +498,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From 360348063d209ca27fa334625cbee3499419de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 12/27] fix: DenseGaussianDRM without an explicit (or with a
 large) seed could not be sliced consistently

---
 tt_sketch/drm/dense_gaussian_drm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..f8d04a7 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -47,7 +47,7 @@ class DenseGaussianDRM(
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
+            np.random.seed(self.seed)
             seed_offset = hash(np.random.uniform(0, dim_prod))
             np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
 
-- 
2.43.0


From e4f3516fa6b9168e1fbd42a7b1330c685c427cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 13/27] fix: increase_rank must reject DRMs that can be sliced
 but not enlarged

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index ac6b385..2e7be05 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -317,7 +317,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From 9cd813afbc96a2f4ca539b80d3aa69a6c99d8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 14/27] fix: TT-GMRES compared the squared residual norm with
 the tolerance

---
 tt_sketch/tt_gmres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d209ad5..e8100f2 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -401,9 +401,10 @@ def tt_sum_gmres(
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y, _, _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        residual_norm = np.linalg.norm(H_red @ y - e1)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
-- 
2.43.0


From 52ac20d526521b8b012969546982b86733aeefa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 15/27] fix: pairwise rounding left a sum with a single summand
 unrounded

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index e8100f2..25da1ab 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -281,6 +281,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if tt_sum.num_summands == 1:
+            tt = tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From f9e3d80e56c6e54689553b12e7174cbdd150b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 16/27] fix: transposed DRMs (and sketches) had the shape and
 ranks of the untransposed ones

---
 tt_sketch/drm_base.py        |  7 +++----
 tt_sketch/sketch_dispatch.py | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index f3bd97e..313ef0f 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -64,12 +64,11 @@ class DRM(ABC):
 
     @property
     def T(self):
+        # The ranks are stored in the order in which the sketch runs through the
+        # modes, and this order is the same for the transposed tensor.
         transposed = deepcopy(self)
         transposed.transpose = not self.transpose
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        transposed.shape = self.shape[::-1]
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..3e627af 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -217,9 +217,8 @@ def general_sketch(
         left_contractions = list(get_sketch_method(tensor, left_drm)(tensor))
     right_contractions = list(get_sketch_method(tensor, right_drm)(tensor))
 
-    if left_drm is None:
-        # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+    # For HMT the left rank is the rank of the right DRM
+    left_rank = right_drm.rank[::-1] if left_drm is None else left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -228,7 +227,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_drm.rank[::-1][mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -240,7 +239,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -251,7 +250,7 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
-- 
2.43.0


From 58dff74316db97c022b2ab67f852c28b16329028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 17/27] fix: 32-bit product of mode sizes made lazy Gaussian
 indices of large tensors collide

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..7d347c3 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -24,7 +24,7 @@ cpdef hash_int_c(uint64[:] vals):
     cdef uint64 mult2 = 0x94D049BB133111EB
     cdef uint64 add1 = 0X4BE98134A5976FD3
 
-    cdef int i
+    cdef Py_ssize_t i
     cdef uint64 r
     for i in range(N):
         r = vals[i]
@@ -58,13 +58,13 @@ cpdef double[:] _inds_to_rand_double(
     uint64 seed,
 ):  
     cdef uint64[:] indices_flat = np.copy(indices[0])
-    cdef int N = indices.shape[1]
+    cdef Py_ssize_t N = indices.shape[1]
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
-    cdef int i
-    cdef int j
+    cdef uint64 prod = shape[0]
+    cdef Py_ssize_t i
+    cdef Py_ssize_t j
     for i in range(1,n_dim):
         for j in range(N):
             indices_flat[j] += indices[i,j] * prod
@@ -131,7 +131,7 @@ cdef short[:] _inds_to_sparse_sign(
         indices, shape, 0, nnz, seed
     )
     cdef short[:] sparse_sign = np.zeros((N*rank), dtype=np.int16)
-    cdef int i
+    cdef Py_ssize_t i
     cdef int j
     cdef int e
     cdef short temp
-- 
2.43.0


From ae698aa3ab36a6cb8fe8c3839162f7617b6a9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 18/27] fix: lazy Gaussian entry was -inf when all mantissa
 bits of its hash are zero

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 7d347c3..388b895 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -44,8 +44,10 @@ cdef uint_to_normal(double[:] nums):
     cdef Py_ssize_t i
     cdef int e
     cdef double x
+    cdef double MIDPOINT = 1.0 / (1ULL << 53)
     for i in range(N): #prange here messes stuff up when parallelizing
-        x = frexp(nums[i], &e) * 2 - 1
+        # Midpoint of the cell of the 52 random bits, so that 0 < x < 1
+        x = frexp(nums[i], &e) * 2 - 1 + MIDPOINT
         x = scipy.special.cython_special.ndtri(x)
         nums[i] = x
 
-- 
2.43.0


From 84a56468b0c33db8f43516d6f087494bd582bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 19/27] fix: inds_to_sparse_sign wrote out of bounds for more
 nonzeros per row than the rank

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 388b895..20069bd 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -172,7 +172,7 @@ def inds_to_sparse_sign(
     shape = np.array(shape,dtype=np.uint64)
     rank_min = int(rank_min)
     rank_max = int(rank_max)
-    non_zero_per_row = int(non_zero_per_row)
+    non_zero_per_row = min(int(non_zero_per_row), int(rank))
     seed = np.mod(seed,2**63,dtype=np.uint64)
     nums_view = _inds_to_sparse_sign(
         indices, shape, rank, non_zero_per_row, seed
-- 
2.43.0


From f54d0460ee8650ee5a9cdf73a6353bd965dc5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 20/27] fix: random column of a sparse sign row could round up
 to the rank, out of bounds

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 20069bd..166247c 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -149,7 +149,7 @@ cdef short[:] _inds_to_sparse_sign(
         # randomly permute
         for j in range(nnz):
             # random int in [j,rank)
-            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) 
+            rand_num = j + <int>(uniform_nums[i*nnz+j]*(rank-j))
             temp = sparse_sign[i*rank+j]
             sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]
             sparse_sign[i*rank+rand_num]=temp
-- 
2.43.0


From 8fab495c0d0b839d484c985e6abafa4bf55b6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 21/27] fix: right sketches of dense and Tucker tensors were
 contracted with reversed modes

---
 tt_sketch/sketching_methods/dense_sketch.py  |  9 +++++++--
 tt_sketch/sketching_methods/tucker_sketch.py |  5 ++++-
 tt_sketch/utils.py                           | 11 +++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/sketching_methods/dense_sketch.py b/tt_sketch/sketching_methods/dense_sketch.py
index 7d04138..abfc667 100644
--- a/tt_sketch/sketching_methods/dense_sketch.py
+++ b/tt_sketch/sketching_methods/dense_sketch.py
@@ -1,7 +1,7 @@
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import DenseTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_row_modes
 
 
 def sketch_omega_dense(
@@ -13,7 +13,8 @@ def sketch_omega_dense(
     **kwargs
 ) -> npt.NDArray:
     X_mat = matricize(tensor.data, range(mu + 1), mat_shape=True)
-    return left_sketch @ X_mat @ rigth_sketch.T
+    right_mat = reverse_row_modes(rigth_sketch.T, tensor.shape[:mu:-1])
+    return left_sketch @ X_mat @ right_mat
 
 
 def sketch_psi_dense(
@@ -26,6 +27,10 @@ def sketch_psi_dense(
 ) -> npt.NDArray:
     ndim = tensor.ndim
     tensor_data = tensor.data
+    if right_sketch is not None:
+        right_sketch = reverse_row_modes(
+            right_sketch.T, tensor.shape[:mu:-1]
+        ).T
     if left_sketch is None:
         tensor_mat = matricize(tensor_data, 0, mat_shape=True)
         Psi = tensor_mat @ right_sketch.T
diff --git a/tt_sketch/sketching_methods/tucker_sketch.py b/tt_sketch/sketching_methods/tucker_sketch.py
index 96f4645..d202cc0 100644
--- a/tt_sketch/sketching_methods/tucker_sketch.py
+++ b/tt_sketch/sketching_methods/tucker_sketch.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import TuckerTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_row_modes
 
 
 def sketch_omega_tucker(
@@ -16,6 +16,7 @@ def sketch_omega_tucker(
 ):
     mode = tuple(range(mu + 1))
     core_mat = matricize(tensor.core, mode, mat_shape=True)
+    right_sketch = reverse_row_modes(right_sketch, tensor.rank[:mu:-1])
     return left_sketch.T @ core_mat @ right_sketch
 
 
@@ -29,6 +30,8 @@ def sketch_psi_tucker(
 ):
     left_dim = left_sketch.shape[0] if left_sketch is not None else 1
     right_dim = right_sketch.shape[0] if right_sketch is not None else 1
+    if right_sketch is not None:
+        right_sketch = reverse_row_modes(right_sketch, tensor.rank[:mu:-1])
     core_ord3 = tensor.core.reshape(left_dim, tensor.rank[mu], right_dim)
     if left_sketch is None:
         Psi = np.einsum("ijk,kl->ijl", core_ord3, right_sketch)  # type: ignore
diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 46498e1..edd3d92 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -95,6 +95,17 @@ def dematricize(A, mode, shape):
     return A
 
 
+def reverse_row_modes(A: npt.NDArray, shape: Tuple[int, ...]) -> npt.NDArray:
+    """Reorder the rows of a matrix, from a (row-major) multi-index of ``shape``
+    to the multi-index of the reversed shape.
+
+    Right DRMs run through the modes of a tensor in reversed order, so this puts
+    the rows of their sketching matrices in the order of the tensor's modes."""
+    perm = tuple(range(len(shape)))[::-1]
+    A_tens = A.reshape(tuple(shape) + (A.shape[1],))
+    return np.transpose(A_tens, perm + (len(shape),)).reshape(A.shape)
+
+
 def right_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``A@np.linalg.pinv(B)``"""
     lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)
-- 
2.43.0


From fa5147cddb5f3ae907a8d11fac881068ac63829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 22/27] fix: TT-GMRES returned NaN when the initial value
 already solves the system

---
 tt_sketch/tt_gmres.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 25da1ab..8685996 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -371,6 +371,10 @@ def tt_sum_gmres(
     history["residual_norm"].append(residual_norm / b_norm)
     history["step_time"].append(perf_counter() - initial_time)
 
+    y = np.zeros(0)
+    if residual_norm == 0 or residual_norm / b_norm < tolerance:
+        maxiter = 0  # The initial value already solves the system
+
     for j in range(maxiter):
         current_time = perf_counter()
         delta = tolerance / (residual_norm / beta)
@@ -415,10 +419,11 @@ def tt_sum_gmres(
             break
 
     # Compute final result and round
-    y = y[: j + 1]
-    nu_list = nu_list[: j + 1]
+    nu_list = nu_list[: len(y)]
     current_time = perf_counter()
-    result = x0 + TensorSum(nu_list) * y
+    result = TensorSum([x0])
+    if len(y) > 0:
+        result = result + TensorSum(nu_list) * y
     result_rounded = round_tt_sum(
         result,
         eps=None,
-- 
2.43.0


From a270d3ccb66e41122a1e2976105eb87906fed1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 23/27] fix: power_decay_tensor raised a NameError

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index edd3d92..ffb5499 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -46,7 +46,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From 6ee5431882fd9c591cbd95914c2b7b1301b7297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 24/27] fix: rmse error of tensors with more than 2^63 entries
 overflowed

---
 tt_sketch/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index ccf5cc2..8103aeb 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -76,7 +76,7 @@ class Tensor(ABC):
                 return np.inf
             error /= other_norm
         if rmse:
-            error /= np.sqrt(np.prod(self.shape))
+            error /= np.sqrt(np.prod(self.shape, dtype=float))
         return error
 
     @property
@@ -602,7 +602,7 @@ class TensorTrain(Tensor):
                     return np.inf
                 error /= other_norm
             if rmse:
-                error /= np.sqrt(np.prod(self.shape))
+                error /= np.sqrt(np.prod(self.shape, dtype=float))
             return error
         else:
             return super().error(other, relative=relative, rmse=rmse, fast=fast)
-- 
2.43.0


From 7aecacdac772366251b068a41956dc0a05493531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:29 +0000
Subject: [PATCH 25/27] fix: ranks given as a number or list together with a
 DRM were rejected

---
 tt_sketch/sketch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 2e7be05..c52343d 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -64,6 +64,7 @@ def hmt_sketch(
         rank = process_tt_rank(rank, tensor.shape, trim=True)
         drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
     else:
+        rank = process_tt_rank(rank, tensor.shape, trim=False)
         if tuple(drm.rank[::-1]) != rank:
             raise ValueError(
                 f"Right rank {rank} does not match the rank of the DRM "
@@ -117,6 +118,7 @@ def orthogonal_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -135,6 +137,7 @@ def orthogonal_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
@@ -193,6 +196,7 @@ def stream_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -213,6 +217,7 @@ def stream_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
-- 
2.43.0


From 14d0142c5229efd953395a796f1b79233f142c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 26/27] fix: gather of a CP tensor failed for cores of
 different number types

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 8103aeb..f4e7144 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -728,7 +728,7 @@ class CPTensor(Tensor):
 
         res = 1
         for C, id in zip(self.cores, idx):
-            res *= C[id]
+            res = res * C[id]
         return np.sum(res, axis=1)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 0a9fa03c108efc91936fa47d1d7139bdd3321015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 27/27] fix: sqrt_tensor swapped the first two modes of the
 requested shape

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index ffb5499..b51ef3c 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -33,7 +33,7 @@ def sqrt_tensor(shape: Tuple[int, ...], a=-0.2, b=2) -> npt.NDArray:
         return np.sqrt(np.abs(np.sum(X, axis=0)))
 
     vals = [np.linspace(a, b, s) for s in shape]
-    grid = np.stack(np.meshgrid(*vals))
+    grid = np.stack(np.meshgrid(*vals, indexing="ij"))
     X = sqrt_sum(grid)
     X /= np.linalg.norm(X)
     return X
-- 
2.43.0

