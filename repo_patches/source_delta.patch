From 5d572b3698c91722ddde0c1cea841766d0f3ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 001/147] fix: lazy unpickler could not open renamed torch
 archives

torch.save names the archive's root folder after the file it is first written
to.  TensorWriter renames its shards afterwards, so mergekit's own .bin output
could not be read back with lazy_unpickle.  Take the root from the archive.
---
 mergekit/io/lazy_unpickle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..d172369 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -127,6 +127,12 @@ class TorchArchiveReader:
     def __init__(self, path: str):
         self.archive = zipfile.ZipFile(path, mode="r")
         self.archive_name = os.path.basename(os.path.normpath(path)).split(".")[0]
+        # the root folder keeps the name the archive was first saved under,
+        # which is not the current file name if the file has been renamed
+        for entry in self.archive.namelist():
+            if entry.endswith("/data.pkl"):
+                self.archive_name = entry[: -len("/data.pkl")]
+                break
 
     def open_file(self, file_name: str, offset: int = 0) -> zipfile.ZipExtFile:
         if self.file_name != file_name or (
-- 
2.43.0


From f69341a67d33e5c8d10b2048106599d386b8dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 002/147] fix: remove stale single-file/index entry points when
 rewriting an output directory

Re-running a merge into the same directory with a different shard count left the
previous model.safetensors or model.safetensors.index.json in place, and readers
then loaded the previous weights.
---
 mergekit/io/tensor_writer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 06b6d46..c82c5f7 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -167,6 +167,17 @@ class TensorWriter:
                 new_path = os.path.join(self.out_path, new_name)
                 os.rename(old_path, new_path)
 
+            # Drop the entry point of an earlier output in the same directory,
+            # or readers would pick up stale weights instead of these
+            index_filename = f"{prefix}.{extension}.index.json"
+            if total_shards > 0:
+                stale_path = os.path.join(
+                    self.out_path,
+                    index_filename if total_shards == 1 else f"{prefix}.{extension}",
+                )
+                if os.path.exists(stale_path):
+                    os.remove(stale_path)
+
             # Write index file if needed
             if total_shards > 1:
                 for key in self.weight_map:
@@ -174,7 +185,6 @@ class TensorWriter:
                         self.weight_map[key], self.weight_map[key]
                     )
 
-                index_filename = f"{prefix}.{extension}.index.json"
                 index_path = os.path.join(self.out_path, index_filename)
                 with open(index_path, "w", encoding="utf-8") as f:
                     content = {
-- 
2.43.0


From c649374785fa5c57963a7bc60d94e9ce41b6b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 003/147] fix: load tensors from checkpoints wrapped in a
 state_dict entry

ShardedTensorIndex.from_file lists the tensors inside {'state_dict': ...}, but
neither pickle loader looked inside it, so every listed tensor raised KeyError.
---
 mergekit/io/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..ba5ceb9 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -53,6 +53,8 @@ class LazyPickleLoader(TensorLoader):
         self.device = device
         with torch_lazy_load():
             self.index = torch.load(path, pickle_module=LazyUnpickleModule)
+        if "state_dict" in self.index:
+            self.index = self.index["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         if key not in self.index:
@@ -71,6 +73,8 @@ class DumbPytorchLoader(TensorLoader):
 
     def __init__(self, path: str, device: Optional[str] = None):
         self.tensors = torch.load(path, map_location=device, weights_only=True)
+        if "state_dict" in self.tensors:
+            self.tensors = self.tensors["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From 3ccddc092b50473272fe75b6b7dc0c4b37ac9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 004/147] fix: lazy unpickler handles scalar, empty, strided
 and boolean tensors

A 0-dim tensor made reduce() of an empty shape fail, an empty one had no bytes to
map, a strided view read fewer bytes than it spans, and torch.iinfo rejects bool
although BoolStorage is accepted.
---
 mergekit/io/lazy_unpickle.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index d172369..ff6edc5 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -4,11 +4,9 @@
 import codecs
 import collections
 import contextlib
-import operator
 import os
 import pickle
 import zipfile
-from functools import reduce
 from typing import Any, Optional, Tuple, Union
 
 import accelerate
@@ -71,7 +69,17 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
+        if 0 in self.shape:
+            return torch.empty(
+                tuple(self.shape),
+                dtype=self.dtype,
+                device=map_location,
+                requires_grad=self.requires_grad,
+            )
+        # extent of storage spanned, which for strided views is not numel
+        total_params = 1 + sum(
+            (size - 1) * stride for size, stride in zip(self.shape, self.stride)
+        )
         total_bytes = total_params * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
@@ -186,11 +194,7 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
-    if dtype.is_floating_point:
-        ti = torch.finfo(dtype)
-    else:
-        ti = torch.iinfo(dtype)
-    return max(1, ti.bits // 8)
+    return torch.tensor([], dtype=dtype).element_size()
 
 
 def get_dtype(storage_type: Any):
-- 
2.43.0


From f68a9c3d30a5dfe328ff896c3cb724be8a9e598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 005/147] fix: multi-GPU executor lost results still queued
 when the workers finished

The collector thread stopped as soon as done_event was set, dropping whatever was
left in the completion queue, so targets went missing and trailing tasks re-ran
their dependencies.
---
 mergekit/multigpu_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..e4cbddc 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,7 +151,10 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                # keep going until every queued result has been collected
+                while not (
+                    self.done_event.is_set() and self.task_completion_queue.empty()
+                ):
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
-- 
2.43.0


From ca1b27e0812fea74171e869bbe7ced6dc1461764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 006/147] fix: multi-GPU executor never ran per-device tasks
 when there was nothing else to parallelize

---
 mergekit/multigpu_executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index e4cbddc..576e37b 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -327,6 +327,9 @@ class MultiGPUExecutor:
             )
             device = torch.device(f"{self.accelerator_type}:{device_idx}")
             assignments[device] = assignments.get(device, []) + island_tasks
+        if self.per_gpu_tasks and not assignments:
+            # nothing else to run in parallel, but these still have to run once
+            assignments[torch.device(f"{self.accelerator_type}:0")] = []
         return assignments
 
     def _device_worker(
-- 
2.43.0


From 310dc76fc65b1ca6aa7eca8231118dacfad7bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 007/147] fix: a parameter given as a single filtered value was
 accepted but crashed the merge

---
 mergekit/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..b45a6c5 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -28,7 +28,9 @@ def evaluate_setting(
 ) -> Optional[float]:
     if isinstance(setting, (float, int, bool, str)):
         return setting
-    elif isinstance(setting, list):
+    if isinstance(setting, ConditionalParameter):
+        setting = [setting]
+    if isinstance(setting, list):
         if all(isinstance(e, (int, float)) for e in setting):
             scaled = t * (len(setting) - 1)
             i0 = int(scaled)
-- 
2.43.0


From 1482eacde7647c3bd3f082b51c0313ff5f814d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 008/147] fix: configurations naming a model whose path
 contains a space, quote, '+' or '@' could not be written out

---
 mergekit/common.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..2ae9233 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -203,16 +203,21 @@ class ModelReference(BaseModel, frozen=True):
 
     @model_serializer()
     def serialize(self):
-        if self.override_architecture is not None:
+        # the string form can't represent parts containing its own separators
+        ambiguous = any(
+            sep in (part or "")
+            for path in (self.model, self.lora)
+            if path is not None
+            for part in (path.path, path.revision)
+            for sep in "+@"
+        )
+        if ambiguous or self.override_architecture is not None:
             return {
                 "model": self.model,
                 "lora": self.lora,
                 "override_architecture": self.override_architecture,
             }
-        res = str(self)
-        if '"' in res or " " in res:
-            return self
-        return res
+        return str(self)
 
     @classmethod
     def parse(cls, value: str) -> "ModelReference":
-- 
2.43.0


From 8c7f02b9e5d21cc03846e4bdd666d61fc2b6b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 009/147] fix: malformed per-token embedding sources were
 silently read as a model reference

---
 mergekit/tokenizer/config.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mergekit/tokenizer/config.py b/mergekit/tokenizer/config.py
index ae35c10..8bd686f 100644
--- a/mergekit/tokenizer/config.py
+++ b/mergekit/tokenizer/config.py
@@ -33,6 +33,16 @@ class TokenEmbeddingConfig(BaseModel, frozen=True):
     source: Union[ModelTokenEmbedding, ZeroEmbedding, ModelReference, None] = None
     force: bool = False
 
+    @pydantic.field_validator("source", mode="before")
+    @classmethod
+    def validate_kind(cls, value):
+        # a malformed `kind` entry must not fall through to ModelReference
+        if isinstance(value, dict) and "kind" in value:
+            return pydantic.TypeAdapter(
+                Union[ModelTokenEmbedding, ZeroEmbedding]
+            ).validate_python(value)
+        return value
+
 
 class TokenizerConfig(BaseModel, frozen=True):
     source: Union[ModelReference, Literal["union"], Literal["base"]] = "union"
-- 
2.43.0


From 462f0150d3d20ab09badc23aa153ee10d3615264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 010/147] fix: planning failed for optional weights that have
 aliases

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index dcf01fc..fda1d7e 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -169,7 +169,7 @@ class MergePlanner:
                 index = LoaderCache().get(model).index
                 if any(
                     name in index.tensor_paths
-                    for name in [w_in.name] + (w_in.aliases or [])
+                    for name in [w_in.name] + list(w_in.aliases or [])
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From 6827e3bc53e352f581b059e08a7924ba55512b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 011/147] fix: final weights ignored inputs of the last slice
 beyond the first slice's count

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index fda1d7e..8629ec8 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,7 +323,7 @@ class MergePlanner:
         for weight_info in module_arch.post_weights():
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weight_info] * len(definition.slices[-1].sources),
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From 1735fcf0630964ce11338e6c74959684e6073a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:34 +0000
Subject: [PATCH 012/147] fix: changing the layer count of models with
 per-layer attention types failed when saving the config

---
 mergekit/merge.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5c3a7ea..4eccbe3 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -15,8 +15,8 @@ import transformers
 from mergekit._data import chat_templates
 from mergekit.architecture import ModelArchitecture, get_architecture_info
 from mergekit.card import generate_card
-from mergekit.common import ModelReference, set_config_value
-from mergekit.config import MergeConfiguration
+from mergekit.common import ModelReference, get_config_value, set_config_value
+from mergekit.config import MergeConfiguration, OutputSliceDefinition
 from mergekit.graph import Executor
 from mergekit.io.tasks import LoaderCache
 from mergekit.multigpu_executor import MultiGPUExecutor
@@ -295,10 +295,12 @@ def _model_out_config(
         res.torch_dtype = config.dtype
 
     module_layers = {}
+    module_slices = {}
     for module_name in arch_info.modules:
         if config.modules and module_name in config.modules:
             module_def = config.modules.get(module_name)
             if module_def and module_def.slices:
+                module_slices[module_name] = module_def.slices
                 module_layers[module_name] = sum(
                     [
                         s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
@@ -306,6 +308,7 @@ def _model_out_config(
                     ]
                 )
         elif config.slices:
+            module_slices[module_name] = config.slices
             module_layers[module_name] = sum(
                 [
                     s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
@@ -331,6 +334,12 @@ def _model_out_config(
                 continue
             try:
                 set_config_value(res, cfg_key, module_layers[module_name])
+                _set_layer_types(
+                    res,
+                    cfg_key,
+                    module_slices[module_name],
+                    trust_remote_code=trust_remote_code,
+                )
             except Exception as e:
                 LOG.warning(
                     f"Unable to set number of layers for module {module_name} in output config "
@@ -341,6 +350,29 @@ def _model_out_config(
     return res
 
 
+def _set_layer_types(
+    config: transformers.PretrainedConfig,
+    num_layers_key: str,
+    slices: List[OutputSliceDefinition],
+    trust_remote_code: bool = False,
+):
+    """Carry per-layer attention types over from the layers used as input."""
+    types_key = ".".join(num_layers_key.split(".")[:-1] + ["layer_types"])
+    try:
+        if not get_config_value(config, types_key):
+            return
+    except RuntimeError:
+        return
+
+    layer_types = []
+    for out_slice in slices:
+        source = out_slice.sources[0]
+        source_config = source.model.config(trust_remote_code=trust_remote_code)
+        source_types = get_config_value(source_config, types_key)
+        layer_types.extend(source_types[source.layer_range[0] : source.layer_range[1]])
+    set_config_value(config, types_key, layer_types)
+
+
 def _update_config_vocab(
     config: transformers.PretrainedConfig,
     arch_info: ModelArchitecture,
-- 
2.43.0


From ddb3bb763757e865ca461c2ff42b67d337b8d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 013/147] fix: DELLA pruning failed on rows with a single
 element

---
 mergekit/sparsify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 13789e1..970dea8 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -167,7 +167,10 @@ def della_magprune(
 
     min_ranks = ranks.min(dim=1, keepdim=True).values
     max_ranks = ranks.max(dim=1, keepdim=True).values
-    rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks)).clamp(0, 1)
+    rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks).clamp(min=1)).clamp(0, 1)
+    if tensor.shape[1] == 1:
+        # a lone element is both the smallest and the largest of its row
+        rank_norm = torch.full_like(rank_norm, 0.5)
     probs = (density - epsilon) + rank_norm * 2 * epsilon
     mask = torch.bernoulli(probs).to(work_dtype)
 
-- 
2.43.0


From 8e603d5762b425c21b8d5a3f91a3d7275b80791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 014/147] fix: outlier pruning dropped every element when gamma
 removes none

---
 mergekit/sparsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 970dea8..f7ce18b 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -110,7 +110,7 @@ def magnitude_outliers(
     indices = torch.sort(w, descending=False).indices
     mask = torch.zeros_like(tensor)
 
-    mask.view(-1)[indices[n_bot:-n_top]] = 1
+    mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
     res = rescaled_masked_tensor(tensor, mask, rescale_norm)
     return res
-- 
2.43.0


From 916b8a62c43350860ca74a4eb514827c47340052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:27 +0000
Subject: [PATCH 015/147] fix: normalized float16 task arithmetic gave NaN when
 the weights sum to zero

---
 mergekit/merge_methods/generalized_task_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/generalized_task_arithmetic.py b/mergekit/merge_methods/generalized_task_arithmetic.py
index b421269..3649946 100644
--- a/mergekit/merge_methods/generalized_task_arithmetic.py
+++ b/mergekit/merge_methods/generalized_task_arithmetic.py
@@ -173,7 +173,7 @@ class GTATask(Task[torch.Tensor]):
         else:
             mixed_delta = weighted_deltas.sum(dim=0)
             divisor = weights.sum(dim=0)
-            divisor[divisor.abs() < 1e-8] = 1
+            divisor[divisor.abs().float() < 1e-8] = 1
 
         if self.normalize:
             mixed_delta /= divisor
-- 
2.43.0


From 3a4e14d8dcb23709f4a5745ae151b66f2c810a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:57 +0000
Subject: [PATCH 016/147] fix: rescaling half-precision tensors gave NaN when
 their norm exceeds the range of the type

---
 mergekit/sparsify.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index f7ce18b..60b0400 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -38,14 +38,14 @@ def rescaled_masked_tensor(
     if norm is None:
         return masked
     elif norm == RescaleNorm.l1:
-        before_scale = tensor.abs().sum()
-        after_scale = masked.abs().sum()
+        before_scale = tensor.float().abs().sum()
+        after_scale = masked.float().abs().sum()
     elif norm == RescaleNorm.l2:
-        before_scale = tensor.norm()
-        after_scale = masked.norm()
+        before_scale = tensor.float().norm()
+        after_scale = masked.float().norm()
     elif norm == RescaleNorm.linf:
-        before_scale = tensor.abs().max()
-        after_scale = masked.abs().max()
+        before_scale = tensor.float().abs().max()
+        after_scale = masked.float().abs().max()
     else:
         raise NotImplementedError(norm)
     if before_scale < eps or after_scale < eps:
-- 
2.43.0


From 95d8463bbd808bcfca2a161e34b551544cdcde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:57 +0000
Subject: [PATCH 017/147] fix: magnitude pruning failed on non-contiguous
 tensors

---
 mergekit/sparsify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 60b0400..2a2d533 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -63,8 +63,8 @@ def magnitude(
     k = int(density * tensor.numel())
 
     assert k > 0, "not gonna zero out the whole tensor buddy"
-    mask = torch.zeros_like(tensor)
-    w = tensor.abs().view(-1)
+    mask = torch.zeros_like(tensor, memory_format=torch.contiguous_format)
+    w = tensor.abs().reshape(-1)
     if w.device.type == "cpu":
         w = w.float()
     topk = torch.argsort(w, descending=True)[:k]
@@ -104,11 +104,11 @@ def magnitude_outliers(
         n_top += n_bot
         n_bot = 0
 
-    w = tensor.abs().view(-1)
+    w = tensor.abs().reshape(-1)
     if w.device.type == "cpu":
         w = w.float()
     indices = torch.sort(w, descending=False).indices
-    mask = torch.zeros_like(tensor)
+    mask = torch.zeros_like(tensor, memory_format=torch.contiguous_format)
 
     mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
-- 
2.43.0


From 308dd3a62789fd2a464f478ce1519385a5bed4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 018/147] fix: multislerp of float16 tensors gave NaN for
 identical or zero inputs

---
 mergekit/merge_methods/multislerp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/merge_methods/multislerp.py b/mergekit/merge_methods/multislerp.py
index 0a10bc4..7a5a9a8 100644
--- a/mergekit/merge_methods/multislerp.py
+++ b/mergekit/merge_methods/multislerp.py
@@ -47,6 +47,8 @@ def multislerp(
     if base_tensor is not None:
         tensors -= base_tensor
 
+    # the default eps rounds to zero in half precision
+    eps = max(eps, torch.finfo(tensors.dtype).tiny)
     tensors_flat = tensors.view(tensors.shape[0], -1)
 
     weights = torch.tensor(weight, dtype=tensors.dtype, device=tensors.device)
-- 
2.43.0


From f45ee7ca112dc1791608cb27d27fd613ea756650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 019/147] fix: karcher merge failed on embeddings of different
 sizes

---
 mergekit/merge_methods/karcher.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/karcher.py b/mergekit/merge_methods/karcher.py
index e15cc1c..95486ad 100644
--- a/mergekit/merge_methods/karcher.py
+++ b/mergekit/merge_methods/karcher.py
@@ -45,8 +45,7 @@ class KarcherTask(Task[torch.Tensor]):
         model_tensors = list(tensors.values())
 
         # Ensure all tensors have compatible shapes
-        for i in range(1, len(model_tensors)):
-            rectify_embed_sizes(self.weight_info, [model_tensors[0], model_tensors[i]])
+        rectify_embed_sizes(self.weight_info, model_tensors)
 
         # Calculate weights (equal by default)
         alphas = [1.0 / len(model_tensors)] * len(model_tensors)
-- 
2.43.0


From ae9557e4227bf11cbe117b5527e7fa9aac87915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:40 +0000
Subject: [PATCH 020/147] fix: nuslerp result exploded for opposite vectors

---
 mergekit/merge_methods/nuslerp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index efa0f7d..4efee84 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -154,7 +154,12 @@ def nuslerp(
     theta = torch.acos(cos_theta.clamp(-1, 1))
     sin_theta = torch.sin(theta)
 
-    colinear = (sin_theta.abs() < eps).squeeze()
+    # at opposite vectors sin(theta) is rounding noise, usually well above eps
+    colinear = (
+        (sin_theta == 0)
+        | (sin_theta.abs() < eps)
+        | (cos_theta < 4 * torch.finfo(v0.dtype).eps - 1)
+    ).squeeze()
 
     res = (torch.sin((1 - t) * theta) * v0 + torch.sin(t * theta) * v1) / sin_theta
     # Use linear interpolation for (nearly) colinear vectors
-- 
2.43.0


From 260b9fc88971a92eaabe2f08ef71fec1376befe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:40 +0000
Subject: [PATCH 021/147] fix: nuslerp failed on non-contiguous tensors and on
 leading dimensions of size one

---
 mergekit/merge_methods/nuslerp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index 4efee84..d52bf8b 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -141,8 +141,8 @@ def nuslerp(
         return x / torch.norm(x, dim=-1, keepdim=True).clamp(min=eps)
 
     if flatten:
-        v0 = v0.view(-1)
-        v1 = v1.view(-1)
+        v0 = v0.reshape(-1)
+        v1 = v1.reshape(-1)
     elif dim != -1:
         v0 = v0.transpose(dim, -1)
         v1 = v1.transpose(dim, -1)
@@ -159,7 +159,7 @@ def nuslerp(
         (sin_theta == 0)
         | (sin_theta.abs() < eps)
         | (cos_theta < 4 * torch.finfo(v0.dtype).eps - 1)
-    ).squeeze()
+    ).squeeze(-1)
 
     res = (torch.sin((1 - t) * theta) * v0 + torch.sin(t * theta) * v1) / sin_theta
     # Use linear interpolation for (nearly) colinear vectors
@@ -167,4 +167,4 @@ def nuslerp(
 
     if dim != -1 and not flatten:
         res = res.transpose(dim, -1)
-    return res.view(out_shape)
+    return res.reshape(out_shape)
-- 
2.43.0


From 6b904950a7742155a4d562b399b615dc77b2b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:10 +0000
Subject: [PATCH 022/147] fix: model_stock gave NaN where the task vectors
 cancel out exactly

---
 mergekit/merge_methods/model_stock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/model_stock.py b/mergekit/merge_methods/model_stock.py
index 3498579..4dcdb3b 100644
--- a/mergekit/merge_methods/model_stock.py
+++ b/mergekit/merge_methods/model_stock.py
@@ -79,7 +79,9 @@ class ModelStockMergeTask(Task[torch.Tensor]):
 
         cos_theta = torch.stack(cos_thetas).mean(dim=0).unsqueeze(-1)
         N = len(ws)
-        t = (N * cos_theta) / (1 + (N - 1) * cos_theta)
+        denom = 1 + (N - 1) * cos_theta
+        # undefined when the offsets cancel out exactly - keep the base model
+        t = torch.where(denom == 0, 0.0, (N * cos_theta) / denom)
 
         w_avg = sum(ws) / len(ws)
         w_h = t * w_avg + (1 - t) * w_0
-- 
2.43.0


From e8ece530419d418c51550c98bf04691ace562902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:10 +0000
Subject: [PATCH 023/147] fix: model_stock, arcee_fusion and ram failed on
 non-contiguous tensors

---
 mergekit/merge_methods/arcee_fusion.py | 2 +-
 mergekit/merge_methods/model_stock.py  | 4 ++--
 mergekit/merge_methods/ram.py          | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index fb355d9..21f4b2f 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -21,7 +21,7 @@ from mergekit.merge_methods.rectify_embed import rectify_embed_sizes
 class DynamicThresholdFusion:
     def approximate_quantiles(self, tensor, q):
         # Flatten the tensor
-        flat_tensor = tensor.view(-1)
+        flat_tensor = tensor.reshape(-1)
 
         # If tensor is too large, sample it
         if flat_tensor.numel() > 1e6:
diff --git a/mergekit/merge_methods/model_stock.py b/mergekit/merge_methods/model_stock.py
index 4dcdb3b..14614bd 100644
--- a/mergekit/merge_methods/model_stock.py
+++ b/mergekit/merge_methods/model_stock.py
@@ -53,8 +53,8 @@ class ModelStockMergeTask(Task[torch.Tensor]):
                 w_0 = w_0.unsqueeze(0)
                 ws = [w.unsqueeze(0) for w in ws]
         else:
-            w_0 = w_0.view(-1)
-            ws = [w.view(-1) for w in ws]
+            w_0 = w_0.reshape(-1)
+            ws = [w.reshape(-1) for w in ws]
 
         offsets = [w - w_0 for w in ws]
 
diff --git a/mergekit/merge_methods/ram.py b/mergekit/merge_methods/ram.py
index 98f05eb..6d1b69a 100644
--- a/mergekit/merge_methods/ram.py
+++ b/mergekit/merge_methods/ram.py
@@ -88,7 +88,7 @@ def _prepare_ram_vectors(
         unique_mask: Mask where counts == 1
     """
     task_vectors = torch.stack([t - base_tensor for t in tensors], dim=0)
-    tv_flat = task_vectors.view(len(tensors), -1)
+    tv_flat = task_vectors.reshape(len(tensors), -1)
 
     # Create masks based on epsilon threshold
     nonzero_mask = tv_flat.abs() > epsilon
-- 
2.43.0


From 174f8710367171c7a165ee31045fedd884648c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 024/147] fix: arcee_fusion and ramplus_tl turned
 half-precision tensors into float32

---
 mergekit/merge_methods/arcee_fusion.py | 2 +-
 mergekit/merge_methods/ram.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index 21f4b2f..bce0988 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -92,7 +92,7 @@ class ArceeFusionMergeTask(Task[torch.Tensor]):
         )
 
         delta = prepped_tensors[1] - prepped_tensors[0]
-        masked_delta = delta * fusion_mask
+        masked_delta = delta * fusion_mask.to(delta.dtype)
         fused = prepped_tensors[0] + masked_delta
 
         return fused
diff --git a/mergekit/merge_methods/ram.py b/mergekit/merge_methods/ram.py
index 6d1b69a..0f0aff3 100644
--- a/mergekit/merge_methods/ram.py
+++ b/mergekit/merge_methods/ram.py
@@ -64,7 +64,7 @@ def ramplus_tl_merge(
     shared_counts = (nonzero_mask & overlap_mask).sum(dim=1)
     unique_counts = (nonzero_mask & unique_mask).sum(dim=1)
     rho = shared_counts / unique_counts.clamp(min=epsilon)
-    lambda_ = 1 + r * rho.clamp(min=0, max=alpha)
+    lambda_ = (1 + r * rho.clamp(min=0, max=alpha)).to(tv_flat.dtype)
 
     tv_flat_z = tv_flat * nonzero_mask
     merged_tv_flat = (
-- 
2.43.0


From 667a38f9867edc78b730a4c9b521bc534ebbaebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 025/147] fix: ramplus_tl gave NaN for models without changes
 when epsilon is zero

---
 mergekit/merge_methods/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/ram.py b/mergekit/merge_methods/ram.py
index 0f0aff3..ad4aabb 100644
--- a/mergekit/merge_methods/ram.py
+++ b/mergekit/merge_methods/ram.py
@@ -63,7 +63,7 @@ def ramplus_tl_merge(
 
     shared_counts = (nonzero_mask & overlap_mask).sum(dim=1)
     unique_counts = (nonzero_mask & unique_mask).sum(dim=1)
-    rho = shared_counts / unique_counts.clamp(min=epsilon)
+    rho = shared_counts / unique_counts.clamp(min=1)
     lambda_ = (1 + r * rho.clamp(min=0, max=alpha)).to(tv_flat.dtype)
 
     tv_flat_z = tv_flat * nonzero_mask
-- 
2.43.0


From 8a87c3158ff4eeea9726204f81ede81fad76b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 026/147] fix: sce returned a tensor of the wrong shape when
 nothing is selected

---
 mergekit/merge_methods/sce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 477e118..9a8d5d1 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -56,15 +56,15 @@ def sce_mask(
     tvs: torch.Tensor, density: float, mask_dtype: Optional[torch.dtype] = None
 ):
     if density <= 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
     if density >= 1:
-        return torch.ones_like(tvs, dtype=mask_dtype)
+        return torch.ones_like(tvs[0], dtype=mask_dtype)
 
     var = torch.var(tvs, dim=0, unbiased=False)
     nonzero = torch.count_nonzero(var)
     k = int(nonzero * density)
     if k == 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
 
     _, indices = torch.topk(var.abs().view(-1), k=k, largest=True)
     mask = torch.zeros_like(var, dtype=mask_dtype)
-- 
2.43.0


From f0aba9587b0b27b37c34f3f4e4187dcc3133f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:58 +0000
Subject: [PATCH 027/147] fix: nearswap of float16 tensors gave NaN for equal
 elements when t is zero

---
 mergekit/merge_methods/nearswap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/nearswap.py b/mergekit/merge_methods/nearswap.py
index 269fab8..73027e9 100644
--- a/mergekit/merge_methods/nearswap.py
+++ b/mergekit/merge_methods/nearswap.py
@@ -25,6 +25,7 @@ def nearswap_merge(
     a = base_tensor
     b = tensors[0]
 
-    absdiff = torch.abs(a - b)
-    weight = (t / absdiff.clamp(min=1e-6)).clamp(min=0, max=1)
+    # in float32, as 1 / 1e-6 is out of range for half precision
+    absdiff = torch.abs(a - b).float()
+    weight = (t / absdiff.clamp(min=1e-6)).clamp(min=0, max=1).to(a.dtype)
     return weight * b + (1 - weight) * a
-- 
2.43.0


From 6c77b55e173a9a6994c96b8c7683805ec14d0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:17 +0000
Subject: [PATCH 028/147] fix: custom merge methods received tensors and
 parameters in arbitrary order, the base model not first

---
 mergekit/merge_methods/easy_define.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..ad5bff1 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -110,10 +110,9 @@ def __merge_method(
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-    if ("base_model" in used_kwargs) or use_base_tensor_arg:
-        bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
-        field_kwargs = {"default": None} if not require_base_tensor else {}
-        tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
+    bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
+    field_kwargs = {"default": None} if not require_base_tensor else {}
+    tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
     if "output_weight" in used_kwargs:
         tt_fields["output_weight"] = (WeightInfo, Field(...))
     if parameters:
@@ -140,14 +139,10 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
-        base_model = getattr(self, "base_model", None)
-        if base_model and base_model in model_refs:
-            model_refs.remove(base_model)
-            if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+        base_model = self.base_model
+        model_refs = [ref for ref in tensors if ref != base_model]
+        if base_model in tensors and not use_base_tensor_arg:
+            model_refs.insert(0, base_model)
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
@@ -182,9 +177,7 @@ def __merge_method(
         base_model: Optional[ModelReference],
         **_kwargs,
     ) -> Task:
-        tt_kwargs = {"gather_tensors": tensors}
-        if "base_model" in tt_fields:
-            tt_kwargs["base_model"] = base_model
+        tt_kwargs = {"gather_tensors": tensors, "base_model": base_model}
         if "output_weight" in tt_fields:
             tt_kwargs["output_weight"] = output_weight
         if "parameters" in tt_fields:
-- 
2.43.0


From 46146457ff5ab656883a88233ed373f10de2c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:17 +0000
Subject: [PATCH 029/147] fix: custom merge methods with unannotated arguments
 were accepted but failed when used

---
 mergekit/merge_methods/easy_define.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index ad5bff1..ddf681f 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -71,7 +71,7 @@ def __merge_method(
         if arg in STANDARD_KWARGS:
             used_kwargs.add(arg)
         else:
-            if arg_info.annotation is None:
+            if arg_info.annotation in (None, inspect.Parameter.empty):
                 raise ValueError(
                     "All merge method arguments must have type annotations"
                 )
-- 
2.43.0


From 1956802363976d4443e72840d33727ba9137b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 030/147] fix: custom merge methods received integer and
 boolean parameters as floats

---
 mergekit/merge_methods/easy_define.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index ddf681f..7fdef8b 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -34,6 +34,7 @@ def __merge_method(
     used_kwargs = set()
     parameters: List[ConfigParameterDef] = []
     tensor_parameters: List[ConfigParameterDef] = []
+    value_types: Dict[str, type] = {}
     sig = inspect.signature(func)
     if "tensors" not in sig.parameters:
         raise ValueError("Merge methods must have a 'tensors' parameter")
@@ -82,6 +83,7 @@ def __merge_method(
                     required = True
                 else:
                     required = False
+                value_types[arg] = arg_info.annotation
                 parameters.append(
                     ConfigParameterDef(
                         name=arg, required=required, default_value=default_value
@@ -102,6 +104,7 @@ def __merge_method(
                     raise ValueError(
                         f"Unexpected default for presumed tensor parameter '{arg}' - should be single number, got {repr(default_value)}"
                     )
+                value_types[arg] = arg_info.annotation.__args__[0]
                 tensor_parameters.append(
                     ConfigParameterDef(
                         name=arg, required=required, default_value=default_value
@@ -138,6 +141,10 @@ def __merge_method(
 
     tt_fields["uses_accelerator"] = _uses_accelerator
 
+    def _typed(name: str, value: Any) -> Any:
+        # numbers in a configuration are always read as floats
+        return value if value is None else value_types[name](value)
+
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
         base_model = self.base_model
         model_refs = [ref for ref in tensors if ref != base_model]
@@ -153,10 +160,11 @@ def __merge_method(
             if require_base_tensor and (inner_kwargs["base_tensor"] is None):
                 raise ValueError("Base model tensor required but not present")
         for key in parameters:
-            inner_kwargs[key.name] = self.parameters[key.name]
+            inner_kwargs[key.name] = _typed(key.name, self.parameters[key.name])
         for key in tensor_parameters:
             inner_kwargs[key.name] = [
-                self.tensor_parameters[ref][key.name] for ref in model_refs
+                _typed(key.name, self.tensor_parameters[ref][key.name])
+                for ref in model_refs
             ]
         return func(tensors=tensors, **inner_kwargs)
 
-- 
2.43.0


From 616b54e11fcc9b2d9c33e43751c2b3ee43b378c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 031/147] fix: the number of write threads was ignored when
 writing models

---
 mergekit/plan.py                      | 2 +-
 mergekit/scripts/extract_lora.py      | 2 +-
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 8629ec8..ec05a1f 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -339,7 +339,7 @@ class MergePlanner:
             max_shard_size=self.options.out_shard_size,
             safe_serialization=self.options.safe_serialization,
             use_async=self.options.async_write,
-            max_write_threads=self.options.write_threads,
+            write_threads=self.options.write_threads,
         )
         save_tasks = []
         for weight, tensor_task in self._tensors:
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b32233..a40460d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -366,7 +366,7 @@ def plan_extraction(
         max_shard_size=-1,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     name_to_wi = all_weights_map(model_ref, options)
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 70d3578..3b84d2b 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -93,7 +93,7 @@ def plan_flat_merge(
         max_shard_size=options.out_shard_size,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     save_tasks = []
-- 
2.43.0


From 66691b25f5dadde37d769081c16d7d7f7b3c79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 032/147] fix: merges without a base model depended on the hash
 seed of the process

---
 mergekit/config.py          | 15 ++++++++-------
 mergekit/tokenizer/embed.py |  7 +++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index b45a6c5..684839e 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -101,26 +101,27 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        models = []
         if self.base_model:
-            models.add(self.base_model)
+            models.append(self.base_model)
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models.append(model_in.model)
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models.append(src.model)
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models.append(model_in.model)
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
-        return list(models)
+                            models.append(src.model)
+        # unique, in order of appearance: results must not depend on hashing
+        return list(dict.fromkeys(models))
 
     @model_validator(mode="after")
     def validate_inputs(self):
diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..18d56a3 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        models = list(tensors.keys())
+        if self.base_model and self.base_model not in tensors:
+            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
-- 
2.43.0


From c21f5bba715bd4e1611f9776e861ab444e3aaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 033/147] fix: merging again in the same process read files as
 they were for the first merge

---
 mergekit/io/tasks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 4e32cf5..71d99c0 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -50,6 +50,8 @@ class LoaderCache:
             loader.flush()
 
     def setup(self, options: MergeOptions):
+        # loaders opened for an earlier merge may be out of date
+        self.loaders.clear()
         self.lora_cache_dir = options.lora_merge_cache
         self.hf_cache_dir = options.transformers_cache
         self.lazy_unpickle = options.lazy_unpickle
-- 
2.43.0


From 270a18aeda720581abcaa0078fa4005753b00c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:16 +0000
Subject: [PATCH 034/147] fix: inferred architectures were not inferred again
 after the model files changed

---
 mergekit/architecture/auto.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..b5a795b 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -4,7 +4,6 @@
 import logging
 import re
 from collections import defaultdict
-from functools import lru_cache
 from typing import List, Optional, Tuple
 
 import torch
@@ -156,7 +155,6 @@ def _template_present_in_all_models(
     )
 
 
-@lru_cache(maxsize=128)
 def infer_architecture_info(
     models: Tuple[ModelReference, ...],
     base_model: Optional[ModelReference],
-- 
2.43.0


From 31b5d35859f84689a2bc23c50436fe59f5d67a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:28 +0000
Subject: [PATCH 035/147] fix: inferred architectures depended on the hash seed
 and could misname tensors outside the layers

---
 mergekit/architecture/auto.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index b5a795b..f023b24 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -214,9 +214,9 @@ def infer_architecture_info(
     for tensor_name in all_tensor_names:
         if RE_LAYER_INDEX.search(tensor_name):
             continue
-        for prefix in module_prefixes:
-            if tensor_name.startswith(prefix):
-                module_loose_weights[prefix].add(tensor_name[len(prefix) :])
+        for prefix in sorted(module_prefixes, key=len, reverse=True):
+            if not prefix or tensor_name.startswith(prefix + "."):
+                module_loose_weights[prefix].add(tensor_name)
                 break
 
     if "" in module_prefixes and not (module_loose_weights[""] or module_templates[""]):
@@ -258,17 +258,17 @@ def infer_architecture_info(
         )
 
     module_archs = {}
-    for prefix in module_prefixes:
+    for prefix in sorted(module_prefixes):
         num_layers = module_layer_counts[prefix]
         module_archs[prefix or "default"] = JsonModuleArchitecture(
             definition=JsonModuleArchDef(
                 model_type="",
                 architectures=[],
-                pre_weights=[_wi(t, "") for t in module_loose_weights[prefix]],
+                pre_weights=[_wi(t, "") for t in sorted(module_loose_weights[prefix])],
                 layer_templates=JsonLayerTemplates(
                     weights=[
                         _wi(t, "", num_layers=num_layers)
-                        for t in module_templates[prefix]
+                        for t in sorted(module_templates[prefix])
                     ]
                 ),
                 post_weights=[],
-- 
2.43.0


From 4642f0ed08e7cb00c1b9f6f20e37511b4cb4c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:41 +0000
Subject: [PATCH 036/147] fix: architecture inference crashed when tied weights
 can not be determined

---
 mergekit/architecture/auto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index f023b24..6aa814e 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -247,8 +247,8 @@ def infer_architecture_info(
             tied_keys is not None
             and any(re.search(pat, full_name) for pat in tied_keys)
         )
-        is_embed = (full_name in embed_names) or any(
-            re.search(pat, full_name) for pat in tied_keys
+        is_embed = (full_name in (embed_names or ())) or any(
+            re.search(pat, full_name) for pat in (tied_keys or ())
         )  # strictly speaking you can have tied non-embedding/lm-head weights
         # but i've never seen it so let's not worry about it until this breaks something
         return WeightInfo(
-- 
2.43.0


From eb662fcf98d0f57a5adf0db64d1bb6ceed96ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:41 +0000
Subject: [PATCH 037/147] fix: architecture inference failed for models with
 adapters

---
 mergekit/architecture/auto.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 6aa814e..364b161 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -34,7 +34,12 @@ LOG = logging.getLogger(__name__)
 
 
 def get_model_tensor_names(model: ModelReference, options: MergeOptions) -> List[str]:
-    loader = model.lazy_loader(
+    merged = model.merged(
+        cache_dir=options.lora_merge_cache,
+        trust_remote_code=options.trust_remote_code,
+        lora_merge_dtype=options.lora_merge_dtype,
+    )
+    loader = merged.lazy_loader(
         cache_dir=options.transformers_cache, lazy_unpickle=options.lazy_unpickle
     )
     return list(loader.index.tensor_paths.keys())
-- 
2.43.0


From 1dfcee78ab4fc87ca6ff451269eedf73bd47dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 038/147] fix: union tokenizers assigned ids to new tokens at
 random

---
 mergekit/tokenizer/build.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..47b8658 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -120,8 +120,9 @@ def build_union_tokenizer(
         )
         added_tokens = tokenizer.added_tokens_decoder
 
+        # get_vocab() returns tokens in arbitrary order
         vocab = tokenizer.get_vocab()
-        for tok, idx in vocab.items():
+        for tok, idx in sorted(vocab.items(), key=lambda item: item[1]):
             if idx >= vocab_size:
                 LOG.warning(
                     f"Token {repr(tok)} present in {str(model)} tokenizer but >= vocab_size"
@@ -134,7 +135,7 @@ def build_union_tokenizer(
             if tok not in out_vocab:
                 out_vocab[tok] = len(out_vocab)
 
-        for tok_idx, info in tokenizer.added_tokens_decoder.items():
+        for tok_idx, info in sorted(added_tokens.items(), key=lambda item: item[0]):
             tok = info.content
             if tok_idx >= vocab_size:
                 continue
-- 
2.43.0


From 1d62a9e0b6a2feacfeda9b4e67d772a1377f003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 039/147] fix: tokenizer merges crashed when a model's
 tokenizer has tokens without embeddings

---
 mergekit/tokenizer/build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 47b8658..3a49d31 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -263,6 +263,7 @@ def build_tokenizer(
                 LOG.warning(
                     f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                 )
+                p[new_idx] = -1
                 continue
 
             p[new_idx] = orig_idx
-- 
2.43.0


From 98a505d486a3eb69f9fd947efa98d7677fc557f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 040/147] fix: tokens added to the base tokenizer took rows of
 its embedding padding instead of their source

---
 mergekit/tokenizer/build.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 3a49d31..35c3cad 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -214,6 +214,9 @@ def build_tokenizer(
             continue
         tokenizers[model] = model_tok
 
+    # adding tokens below may modify the base tokenizer
+    original_vocabs = {model: tok.get_vocab() for model, tok in tokenizers.items()}
+
     LOG.info("Building output tokenizer")
     # build final vocabulary
     if isinstance(tokenizer_source, ModelReference):
@@ -242,10 +245,10 @@ def build_tokenizer(
     for model in (
         pbar := tqdm.tqdm(referenced_models, desc="Building tokenizer permutations")
     ):
-        if model in tokenizers:
-            model_vocab = tokenizers[model].get_vocab()
+        if model in original_vocabs:
+            model_vocab = original_vocabs[model]
         else:
-            model_vocab = tokenizers[base_model].get_vocab()
+            model_vocab = original_vocabs[base_model]
 
         vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)
         if vocab_size is None:
@@ -275,7 +278,7 @@ def build_tokenizer(
     return TokenizerInfo(
         tokenizer=tokenizer_out,
         permutations=permutations,
-        original_vocabs={model: tok.get_vocab() for model, tok in tokenizers.items()},
+        original_vocabs=original_vocabs,
     )
 
 
-- 
2.43.0


From 97b604ddb85f0a2e6f655ab4e9e172853a5ccf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 041/147] fix: zero embeddings for tokens, requested or because
 no model has the token, crashed the merge

---
 mergekit/tokenizer/embed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 18d56a3..5693c4d 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -129,7 +129,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding())
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=ZeroEmbedding(kind="zero")
+                )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
@@ -151,7 +153,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         cfg: TokenEmbeddingConfig,
     ) -> torch.Tensor:
         if isinstance(cfg.source, ZeroEmbedding):
-            pass
+            embed = torch.zeros_like(next(iter(tensors.values()))[0])
         elif isinstance(cfg.source, ModelTokenEmbedding):
             model = cfg.source.model
             assert (
-- 
2.43.0


From 50756add5f8f47ad6088d2ee07469bac0dc5a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:29 +0000
Subject: [PATCH 042/147] fix: tokens configured without an embedding source
 crashed the merge

---
 mergekit/tokenizer/embed.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 5693c4d..8c2d25e 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -118,26 +118,34 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokens_to_average = set()
         # find tokens that are only present in one model
         for token, token_id in vocab.items():
+            force = False
             if token in token_configs:
-                continue
+                if token_configs[token].source is not None:
+                    continue
+                # no source given: use the default one
+                force = token_configs[token].force
 
             has_token = [p[token_id] >= 0 for p in permutation_list]
             num_present = sum(int(x) for x in has_token)
             if num_present == 1:
                 donor_model = models[has_token.index(True)]
-                token_configs[token] = TokenEmbeddingConfig(source=donor_model)
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=donor_model, force=force
+                )
                 continue
 
             if num_present == 0:
                 token_configs[token] = TokenEmbeddingConfig(
-                    source=ZeroEmbedding(kind="zero")
+                    source=ZeroEmbedding(kind="zero"), force=force
                 )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
             if num_present > 0 and self.base_model is not None:
                 if permutations[self.base_model][token_id] >= 0:
-                    token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
+                    token_configs[token] = TokenEmbeddingConfig(
+                        source=self.base_model, force=force
+                    )
                     continue
 
             tokens_to_average.add(token)
-- 
2.43.0


From eac6d0cedb960c5a4a6504971ee6607267209fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:29 +0000
Subject: [PATCH 043/147] fix: tokenizer merges crashed when a model takes no
 part in the slice holding the embeddings

---
 mergekit/plan.py            | 14 ++++++++++++++
 mergekit/tokenizer/embed.py | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index ec05a1f..1885092 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -214,8 +214,22 @@ class MergePlanner:
             if cfg_reader.config.tokenizer:
                 token_cfg = cfg_reader.config.tokenizer.tokens
                 pad_to_multiple = cfg_reader.config.tokenizer.pad_to_multiple_of
+            donor_models = [
+                m for m in self._tokenizer_task.referenced_models if m not in models
+            ]
+            donor_tensors = None
+            if donor_models:
+                donor_weight = weight.model_copy(update={"optional": True})
+                donor_tensors = GatherTensors(
+                    weight_info=ImmutableMap(
+                        data={m: donor_weight for m in donor_models}
+                    ),
+                    dtype=self.config.dtype,
+                    device=self.options.device if self.options.read_to_gpu else None,
+                )
             tensor_input_task = PermutedEmbeddings(
                 gather_tensors=gather_tensors,
+                donor_tensors=donor_tensors,
                 tokenizer_task=self._tokenizer_task,
                 tokens=token_cfg,
                 pad_to_multiple_of=pad_to_multiple,
diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 8c2d25e..79310b1 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -19,23 +19,31 @@ from mergekit.tokenizer.config import (
 
 class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
     gather_tensors: GatherTensors
+    # embeddings of models that only serve as a source for missing tokens
+    donor_tensors: Optional[GatherTensors] = None
     tokenizer_task: BuildTokenizer
     tokens: Optional[ImmutableMap[str, TokenEmbeddingConfig]]
     pad_to_multiple_of: Optional[int]
     base_model: Optional[ModelReference]
 
     def arguments(self) -> Dict[str, Task]:
-        return {"tokenizer_info": self.tokenizer_task, "tensors": self.gather_tensors}
+        res = {"tokenizer_info": self.tokenizer_task, "tensors": self.gather_tensors}
+        if self.donor_tensors is not None:
+            res["donors"] = self.donor_tensors
+        return res
 
     def execute(
-        self, tokenizer_info: TokenizerInfo, tensors: Dict[ModelReference, torch.Tensor]
+        self,
+        tokenizer_info: TokenizerInfo,
+        tensors: Dict[ModelReference, torch.Tensor],
+        donors: Optional[Dict[ModelReference, torch.Tensor]] = None,
     ) -> Dict[ModelReference, torch.Tensor]:
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
+        output_models = list(tensors.keys())
+        tensors = {**tensors, **(donors or {})}
         models = list(tensors.keys())
-        if self.base_model and self.base_model not in tensors:
-            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
@@ -78,7 +86,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
             default_embeds[token] = embed
 
         result = {}
-        for model in models:
+        for model in output_models:
             p = permutations[model]
             old_embed = tensors[model]
             new_embed = torch.zeros(
@@ -141,7 +149,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
-            if num_present > 0 and self.base_model is not None:
+            if num_present > 0 and self.base_model in models:
                 if permutations[self.base_model][token_id] >= 0:
                     token_configs[token] = TokenEmbeddingConfig(
                         source=self.base_model, force=force
-- 
2.43.0


From d43728e4953aa204ade87fa01ca27ded97a5be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:40 +0000
Subject: [PATCH 044/147] fix: literal chat templates longer than a file name
 were not accepted

---
 mergekit/merge.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 4eccbe3..3363275 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -152,6 +152,14 @@ def run_merge(
         shutil.rmtree(out_path)
 
 
+def _builtin_chat_template(name: str) -> Optional[str]:
+    # compare names only: a literal template may not be a usable file name
+    for entry in importlib.resources.files(chat_templates).iterdir():
+        if entry.name == name + ".jinja":
+            return entry.read_text()
+    return None
+
+
 def _set_chat_template(
     tokenizer: transformers.PreTrainedTokenizerBase,
     merge_config: MergeConfiguration,
@@ -185,12 +193,8 @@ def _set_chat_template(
         chat_template = Counter(model_templates).most_common(1)[0][0]
         LOG.info(f"Auto-selected chat template: {chat_template}")
 
-    elif (
-        t := importlib.resources.files(chat_templates).joinpath(
-            chat_template + ".jinja"
-        )
-    ).is_file():
-        chat_template = t.read_text()
+    elif builtin := _builtin_chat_template(chat_template):
+        chat_template = builtin
 
     elif len(chat_template) < 20 or "{" not in chat_template:
         raise RuntimeError(f"Invalid chat template: {chat_template}")
-- 
2.43.0


From f298a74eaef6bd80ed08e0d6e12f2cbef42cd3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:40 +0000
Subject: [PATCH 045/147] fix: invalid chat templates were silently dropped
 unless a tokenizer was built

---
 mergekit/merge.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 3363275..dc6e9d2 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -38,6 +38,7 @@ def run_merge(
 
     if not merge_config.models and not merge_config.slices and not merge_config.modules:
         raise RuntimeError("No output requested")
+    _check_chat_template(merge_config.chat_template)
 
     arch_info = get_architecture_info(merge_config, options)
     # initialize loader cache and set options
@@ -160,6 +161,16 @@ def _builtin_chat_template(name: str) -> Optional[str]:
     return None
 
 
+def _check_chat_template(chat_template: Optional[str]):
+    if (
+        chat_template
+        and chat_template != "auto"
+        and (len(chat_template) < 20 or "{" not in chat_template)
+        and not _builtin_chat_template(chat_template)
+    ):
+        raise RuntimeError(f"Invalid chat template: {chat_template}")
+
+
 def _set_chat_template(
     tokenizer: transformers.PreTrainedTokenizerBase,
     merge_config: MergeConfiguration,
@@ -196,8 +207,8 @@ def _set_chat_template(
     elif builtin := _builtin_chat_template(chat_template):
         chat_template = builtin
 
-    elif len(chat_template) < 20 or "{" not in chat_template:
-        raise RuntimeError(f"Invalid chat template: {chat_template}")
+    else:
+        _check_chat_template(chat_template)
 
     tokenizer.chat_template = chat_template
 
-- 
2.43.0


From bd020dc95a7b74c2bcb678db4547675b6eb2fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:40 +0000
Subject: [PATCH 046/147] fix: dtypes given with a torch prefix were written to
 the config in a form that can not be loaded

---
 mergekit/merge.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index dc6e9d2..48f6cc1 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -304,10 +304,8 @@ def _model_out_config(
         res = config.base_model.config(trust_remote_code=trust_remote_code)
     else:
         res = config.referenced_models()[0].config(trust_remote_code=trust_remote_code)
-    if config.out_dtype:
-        res.torch_dtype = config.out_dtype
-    elif config.dtype:
-        res.torch_dtype = config.dtype
+    if out_dtype := (config.out_dtype or config.dtype):
+        res.torch_dtype = out_dtype.removeprefix("torch.")
 
     module_layers = {}
     module_slices = {}
-- 
2.43.0


From c4030615f86da0424f7bf10a0b40c9650933c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:14 +0000
Subject: [PATCH 047/147] fix: config stated the wrong vocabulary size when
 models with different ones were merged without a tokenizer

---
 mergekit/merge.py | 51 +++++++++++++++++++++++++++++++++++++++++++++--
 mergekit/plan.py  |  4 ++++
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 48f6cc1..55ecc2c 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -18,6 +18,7 @@ from mergekit.card import generate_card
 from mergekit.common import ModelReference, get_config_value, set_config_value
 from mergekit.config import MergeConfiguration, OutputSliceDefinition
 from mergekit.graph import Executor
+from mergekit.io import LazyTensorLoader
 from mergekit.io.tasks import LoaderCache
 from mergekit.multigpu_executor import MultiGPUExecutor
 from mergekit.options import MergeOptions
@@ -62,12 +63,13 @@ def run_merge(
     del pbar
 
     LOG.info("Planning operations")
-    targets = MergePlanner(
+    planner = MergePlanner(
         merge_config,
         arch_info,
         options=options,
         out_model_config=cfg_out,
-    ).plan_to_disk(out_path=out_path)
+    )
+    targets = planner.plan_to_disk(out_path=out_path)
 
     if options.multi_gpu:
         exec = MultiGPUExecutor(
@@ -93,6 +95,15 @@ def run_merge(
         _update_config_vocab(
             cfg_out, arch_info, tokenizer, pad_to_multiple_of=pad_to_multiple_of
         )
+    else:
+        _match_config_vocab(
+            cfg_out,
+            arch_info,
+            merge_config,
+            embed_names=planner.planned_embeddings(),
+            out_path=out_path,
+            trust_remote_code=options.trust_remote_code,
+        )
 
     LOG.info("Saving config")
     cfg_out.save_pretrained(out_path)
@@ -395,6 +406,42 @@ def _update_config_vocab(
     vocab_size = len(tokenizer.get_vocab())
     if pad_to_multiple_of and vocab_size % pad_to_multiple_of:
         vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)
+    _set_config_vocab_size(config, arch_info, vocab_size)
+
+
+def _match_config_vocab(
+    config: transformers.PretrainedConfig,
+    arch_info: ModelArchitecture,
+    merge_config: MergeConfiguration,
+    embed_names: List[str],
+    out_path: str,
+    trust_remote_code: bool = False,
+):
+    """Use the number of embeddings written when the inputs don't agree on one."""
+    key = arch_info.vocab_size_config_key or "vocab_size"
+    try:
+        vocab_sizes = {
+            get_config_value(m.config(trust_remote_code=trust_remote_code), key)
+            for m in merge_config.referenced_models()
+        }
+    except RuntimeError:
+        return
+    if len(vocab_sizes) < 2:
+        return
+
+    loader = LazyTensorLoader.from_disk(out_path)
+    for name in embed_names:
+        if name in loader.index.tensor_paths:
+            vocab_size = loader.get_tensor(name).shape[0]
+            _set_config_vocab_size(config, arch_info, vocab_size)
+            return
+
+
+def _set_config_vocab_size(
+    config: transformers.PretrainedConfig,
+    arch_info: ModelArchitecture,
+    vocab_size: int,
+):
     try:
         set_config_value(
             config, arch_info.vocab_size_config_key or "vocab_size", vocab_size
diff --git a/mergekit/plan.py b/mergekit/plan.py
index 1885092..2139174 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -376,6 +376,10 @@ class MergePlanner:
             res.append(self._tokenizer_task)
         return res
 
+    def planned_embeddings(self) -> List[str]:
+        """Names of the planned tensors with one row per token."""
+        return [weight.name for weight, _ in self._tensors if weight.is_embed]
+
     def plan_in_memory(self) -> List[ReturnTensor]:
         """Plan the merge to be performed in memory."""
         self._plan()
-- 
2.43.0


From ff88d62167e4f6104fadec57aabd957e1abe4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:14 +0000
Subject: [PATCH 048/147] fix: merges of models with and without tied
 embeddings were marked as tied, so their output head was ignored

---
 mergekit/merge.py |  3 +++
 mergekit/plan.py  | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 55ecc2c..86c2f10 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -104,6 +104,9 @@ def run_merge(
             out_path=out_path,
             trust_remote_code=options.trust_remote_code,
         )
+    if getattr(cfg_out, "tie_word_embeddings", False) and planner.plans_untied_head():
+        # the head was merged with that of a model which has one of its own
+        cfg_out.tie_word_embeddings = False
 
     LOG.info("Saving config")
     cfg_out.save_pretrained(out_path)
diff --git a/mergekit/plan.py b/mergekit/plan.py
index 2139174..4b502e6 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -380,6 +380,20 @@ class MergePlanner:
         """Names of the planned tensors with one row per token."""
         return [weight.name for weight, _ in self._tensors if weight.is_embed]
 
+    def plans_untied_head(self) -> bool:
+        """Whether the output head is stored and not tied in all of the inputs."""
+        return any(
+            weight.is_embed and weight.optional and weight.tied_names
+            for weight, _ in self._tensors
+        ) and not all(
+            getattr(
+                model.config(trust_remote_code=self.options.trust_remote_code),
+                "tie_word_embeddings",
+                False,
+            )
+            for model in self.config.referenced_models()
+        )
+
     def plan_in_memory(self) -> List[ReturnTensor]:
         """Plan the merge to be performed in memory."""
         self._plan()
-- 
2.43.0


From ffbe6a5c80918344d941c64a6aa39dddbcb88403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:33 +0000
Subject: [PATCH 049/147] fix: inferred architectures lost tensors unknown to
 the Transformers model class

---
 mergekit/architecture/auto.py       | 31 ++++++++++++++++++++++-------
 mergekit/architecture/conversion.py | 10 ++++++++++
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 364b161..e96a34c 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -14,7 +14,10 @@ from mergekit.architecture.base import (
     ModuleDefinition,
     WeightInfo,
 )
-from mergekit.architecture.conversion import can_convert_checkpoint_keys
+from mergekit.architecture.conversion import (
+    can_convert_checkpoint_keys,
+    is_converted_checkpoint_key,
+)
 from mergekit.architecture.json_definitions import (
     JsonLayerTemplates,
     JsonModuleArchDef,
@@ -56,7 +59,7 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
             f"Unable to load config for {model.model} - tied/ignored weights will not be detected",
             exc_info=e,
         )
-        return None, None, None, None
+        return None, None, None, None, None
     model_obj = None
     try:
         with torch.device("meta"), no_init_weights():
@@ -83,7 +86,7 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
                 f"Unable to load model {model.model} with transformers - tied/ignored weights will not be detected",
                 exc_info=e,
             )
-            return None, None, None, None
+            return None, None, None, None, None
 
     ignore_on_save = getattr(model_obj, "_keys_to_ignore_on_save", None)
     if _get_tied_weight_keys is None:
@@ -107,7 +110,8 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
         ):
             embed_names.add(name + ".weight")
     tensor_names = list(model_obj.state_dict().keys())
-    return ignore_on_save, tied_keys, embed_names, tensor_names
+    ignore_on_load = getattr(model_obj, "_keys_to_ignore_on_load_unexpected", None)
+    return ignore_on_save, tied_keys, embed_names, tensor_names, ignore_on_load
 
 
 def _target_present_in_all_models(
@@ -173,15 +177,28 @@ def infer_architecture_info(
     if base_model is None:
         base_model = models.pop(0)
     raw_tensor_names = set().union(*model_tensor_names.values())
-    ignore_on_save, tied_keys, embed_names, transformer_tensor_names = (
-        get_transformers_info(base_model, options)
-    )
+    (
+        ignore_on_save,
+        tied_keys,
+        embed_names,
+        transformer_tensor_names,
+        ignore_on_load,
+    ) = get_transformers_info(base_model, options)
     if transformer_tensor_names:
         all_tensor_names = set(transformer_tensor_names)
         model_types = {
             model: model.config(trust_remote_code=options.trust_remote_code).model_type
             for model in model_tensor_names
         }
+        # tensors that the Transformers model neither has nor converts from
+        # must not be lost
+        for model, names in model_tensor_names.items():
+            all_tensor_names.update(
+                name
+                for name in names - all_tensor_names
+                if not is_converted_checkpoint_key(model_types[model], name)
+                and not any(re.search(pat, name) for pat in ignore_on_load or ())
+            )
     else:
         all_tensor_names = raw_tensor_names
         model_types = {}
diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index e9da6c7..582904f 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -183,3 +183,13 @@ def can_convert_checkpoint_keys(
             return False
 
     return False
+
+
+def is_converted_checkpoint_key(model_type: Optional[str], source_key: str) -> bool:
+    """Return whether Transformers renames or converts this checkpoint key."""
+    if not model_type:
+        return False
+    return any(
+        transform.rename_source_key(source_key)[1] is not None
+        for transform in get_checkpoint_conversion_mapping(model_type) or []
+    )
-- 
2.43.0


From 5767357c795d25fc1f34ae3dd317d5e5151538aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 050/147] fix: orthogonal matching pursuit returned huge or
 undefined coefficients for linearly dependent points

---
 mergekit/tokensurgeon/omp.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/mergekit/tokensurgeon/omp.py b/mergekit/tokensurgeon/omp.py
index 1ce3979..7cd7be7 100644
--- a/mergekit/tokensurgeon/omp.py
+++ b/mergekit/tokensurgeon/omp.py
@@ -51,6 +51,7 @@ def batch_omp(
     selected_indices = torch.zeros((B, k), dtype=torch.long, device=device)
     mask = torch.zeros((B, N), dtype=torch.bool, device=device)
     residuals = targets_work.clone()
+    any_dependent = False
 
     for t in range(k):
         rms_0 = residuals.norm(dim=1).mean()
@@ -66,9 +67,14 @@ def batch_omp(
 
         new_atom = points_work[new_idx]  # (B, D)
         if t == 0:
-            r[:, 0, 0] = new_atom.norm(dim=1)
-            norm = r[:, 0, 0].clamp(min=eps)
-            q[:, :, 0] = new_atom / norm.unsqueeze(1)
+            norm = new_atom.norm(dim=1)
+            dependent = norm <= eps
+            any_dependent = bool(dependent.any())
+            norm = norm.masked_fill(dependent, 1)
+            r[:, 0, 0] = norm
+            q[:, :, 0] = new_atom.masked_fill(
+                dependent.unsqueeze(-1), 0
+            ) / norm.unsqueeze(1)
         else:
             # Project onto existing basis
             projections = torch.bmm(
@@ -81,13 +87,28 @@ def batch_omp(
             ).squeeze(
                 -1
             )  # (B, D)
-            norm = torch.clamp(torch.norm(residual, dim=1), min=eps)
+            # Project again to get rid of rounding errors
+            correction = torch.bmm(
+                q[:, :, :t].transpose(1, 2), residual.unsqueeze(-1)
+            )  # (B, t, 1)
+            residual = residual - torch.bmm(q[:, :, :t], correction).squeeze(-1)
+            projections = projections + correction.squeeze(-1)
+            norm = torch.norm(residual, dim=1)
+            # Atoms that depend linearly on the ones already selected add nothing
+            # but noise, give them a coefficient of zero
+            tol = (100 * torch.finfo(work_dtype).eps * new_atom.norm(dim=1)).clamp(
+                min=eps
+            )
+            dependent = norm <= tol
+            any_dependent = any_dependent or bool(dependent.any())
+            residual = residual.masked_fill(dependent.unsqueeze(-1), 0)
+            norm = norm.masked_fill(dependent, 1)
             # Update R and Q
             r[:, :t, t] = projections
             r[:, t, t] = norm
             q[:, :, t] = residual / norm.unsqueeze(-1)
 
-        if t > 0 and t % reorthogonalize_interval == 0:
+        if t > 0 and t % reorthogonalize_interval == 0 and not any_dependent:
             q_b = q[:, :, : t + 1]
             q_new, r_new = torch.linalg.qr(q_b, mode="reduced")
             r[:, : t + 1, : t + 1] = torch.bmm(r_new, r[:, : t + 1, : t + 1])
-- 
2.43.0


From 930e1df9a3197b8021091bfc13c6873c4b7a247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 051/147] fix: landmark PCA applied the inverse of the rotation
 it computed

---
 mergekit/tokensurgeon/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/pca.py b/mergekit/tokensurgeon/pca.py
index 9a1a8fc..f50ee73 100644
--- a/mergekit/tokensurgeon/pca.py
+++ b/mergekit/tokensurgeon/pca.py
@@ -50,7 +50,7 @@ def landmark_pca_approximate(
     B_pca = torch.mm(centered_b, V_b)  # (N, effective_dim)
 
     # Compute Procrustes matrix and solve for optimal rotation
-    M = torch.mm(B_pca.t(), A_pca)  # (effective_dim, effective_dim)
+    M = torch.mm(A_pca.t(), B_pca)  # (effective_dim, effective_dim)
     U, S, V = torch.svd(M)
     R = torch.mm(U, V.t())  # (effective_dim, effective_dim)
 
-- 
2.43.0


From b35ccceaae2879f996e3e610bb72e8ba8c73943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 052/147] fix: weighted subword means gave the first token of
 an embedding the highest weight, not the last

---
 mergekit/tokensurgeon/subword.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index e30cc26..8811bbc 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -41,7 +41,7 @@ def subword_approximate(
                 res[idx] /= len(token_ids)
         elif subword_method == SubwordMethod.WEIGHTED_MEAN:
             weights = list(range(1, len(token_ids) + 1))
-            if not is_lm_head:
+            if is_lm_head:
                 # for embed_tokens, want last token to have highest weight
                 # (vs. first token for lm_head)
                 weights = weights[::-1]
-- 
2.43.0


From 66b635c5430f2d16637c1e0d1f536e60ec35f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 053/147] fix: john_hewitt initialization crashed when the
 covariance is not positive definite

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6c6e079..7ad5975 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -238,7 +238,7 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
         )
         return (
             torch.randn(
-                len(num_new_tokens),
+                num_new_tokens,
                 orig_embed.shape[1],
                 device=orig_embed.device,
                 dtype=orig_embed.dtype,
-- 
2.43.0


From 3c165d2474a55fc0b188ddbff8008ea1801c2299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 054/147] fix: noise or scale could not be applied to mean
 embeddings

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 7ad5975..4bf3342 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -267,7 +267,7 @@ def compute_new_embeddings(
     assert all(t in donor_vocab for t in target_tokens)
     if options.method == ApproximationMethod.MEAN:
         mean = orig_embed.mean(dim=0)
-        return mean.unsqueeze(0).expand(len(target_tokens), -1)
+        return mean.unsqueeze(0).repeat(len(target_tokens), 1)
     elif options.method == ApproximationMethod.ZERO:
         return torch.zeros(
             len(target_tokens),
-- 
2.43.0


From 9a2261593389a65b23a9c6f2c2912dd78c302110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 055/147] fix: the sparse token basis method always crashed,
 and depended on the hash seed

---
 mergekit/scripts/tokensurgeon.py     | 2 +-
 mergekit/tokensurgeon/token_basis.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 4bf3342..83dec7e 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -437,7 +437,7 @@ def build_embedding_matrix(
             safe_orig_vocab,
             safe_donor_vocab,
             junk_tokens,
-            options,
+            options.k,
         )
     else:
         token_basis = None
diff --git a/mergekit/tokensurgeon/token_basis.py b/mergekit/tokensurgeon/token_basis.py
index 65d05be..47bceef 100644
--- a/mergekit/tokensurgeon/token_basis.py
+++ b/mergekit/tokensurgeon/token_basis.py
@@ -92,7 +92,7 @@ def compute_token_basis(
     junk_set = set(junk_tokens)
     common_vocab = [
         tok
-        for tok in common_vocab
+        for tok in sorted(common_vocab, key=lambda x: donor_vocab[x])
         if (tok not in donor_vocab or donor_vocab[tok] not in junk_set)
     ]
     effective_dim = min(orig_embed.shape[1], donor_embed.shape[1])
-- 
2.43.0


From f65427ab971517373c49952bb5f4e834535b7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 056/147] fix: prefix and byte matching for only one of
 embedding and output head applied to the other

---
 mergekit/scripts/tokensurgeon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 83dec7e..ad9819a 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -717,8 +717,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
             is_lm_head=False,
             options=options,
         )
@@ -741,8 +741,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
             is_lm_head=True,
             options=options,
         )
-- 
2.43.0


From 18a9d046ff37b905816ca09281a3791100b828cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 057/147] fix: cosine interpolation weights blew up when
 similarities were negative

---
 mergekit/tokensurgeon/common_interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/common_interpolation.py b/mergekit/tokensurgeon/common_interpolation.py
index 0f1dde3..78aab7f 100644
--- a/mergekit/tokensurgeon/common_interpolation.py
+++ b/mergekit/tokensurgeon/common_interpolation.py
@@ -40,7 +40,8 @@ def approximate_from_landmarks(
 
     if scheme == WeightingScheme.DISTANCE_PROPORTIONAL:
         if cosine_similarity:
-            weights = 1 - distances
+            # points pointing away from the target carry no information about it
+            weights = (1 - distances).clamp_min(1e-6)
         else:
             weights = 1 / distances.clamp_min(1e-6)
         weights = weights / weights.sum(dim=1, keepdim=True).clamp_min(1e-6)
-- 
2.43.0


From 83a050ac61eaf9592fae0fb77934881e1c5cbbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 058/147] fix: common vocabulary interpolation crashed for half
 precision models

---
 mergekit/tokensurgeon/common_interpolation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mergekit/tokensurgeon/common_interpolation.py b/mergekit/tokensurgeon/common_interpolation.py
index 78aab7f..ef02b0c 100644
--- a/mergekit/tokensurgeon/common_interpolation.py
+++ b/mergekit/tokensurgeon/common_interpolation.py
@@ -91,6 +91,11 @@ def common_interp_approximate(
     assert targets.size(1) == a_embeddings.size(1)
     assert (k is None) or (k > 0), "k must be positive"
 
+    # half precision is not supported by all of the operations below
+    if targets.dtype not in (torch.float32, torch.float64):
+        targets = targets.float()
+    a_embeddings = a_embeddings.to(targets.dtype)
+
     if metric == DistanceMetric.EUCLIDEAN:
         distances = torch.cdist(targets, a_embeddings, p=2)
     elif metric == DistanceMetric.COSINE:
-- 
2.43.0


From 9aa4f4fb8c43e6e5a6e7892a2943351345825175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 059/147] fix: the mp_rope method crashed because
 configurations have no rope_theta in Transformers 5

---
 mergekit/scripts/tokensurgeon.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index ad9819a..ef5fa79 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -253,6 +253,18 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
     return new_embeds.to(orig_embed.dtype)
 
 
+def get_rope_base(config: transformers.PretrainedConfig) -> float:
+    """Get the base of the rotary position embeddings of a model."""
+    if getattr(config, "rope_theta", None) is not None:
+        return config.rope_theta
+    rope_parameters = getattr(config, "rope_parameters", None) or {}
+    if "rope_theta" in rope_parameters:
+        return rope_parameters["rope_theta"]
+    raise RuntimeError(
+        f"Model type {config.model_type} does not use rotary position embeddings"
+    )
+
+
 def compute_new_embeddings(
     orig_embed: torch.Tensor,
     donor_embed: torch.Tensor,
@@ -334,8 +346,8 @@ def compute_new_embeddings(
                 k=options.k,
                 num_heads_a=donor_config.num_attention_heads,
                 num_heads_b=model_config.num_attention_heads,
-                a_rope_base=donor_config.rope_theta,
-                b_rope_base=model_config.rope_theta,
+                a_rope_base=get_rope_base(donor_config),
+                b_rope_base=get_rope_base(model_config),
             )
         else:
             indices, coeffs = batch_omp(targets, donor_shared_embeds, options.k)
-- 
2.43.0


From 7b93c9234d58f566f10005fd5128da3b8ae8965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:57 +0000
Subject: [PATCH 060/147] fix: word starts of SentencePiece vocabularies were
 not recognized in generic tokenizer classes

---
 mergekit/tokenizer/normalization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/normalization.py b/mergekit/tokenizer/normalization.py
index cd4b050..447f317 100644
--- a/mergekit/tokenizer/normalization.py
+++ b/mergekit/tokenizer/normalization.py
@@ -108,8 +108,12 @@ def normalized_vocabulary(
         else:
             word_start_prefix = "▁"
     else:
-        LOG.warning("Unknown tokenizer type - assuming 'Ġ' word start prefix")
-        word_start_prefix = "Ġ"
+        # generic tokenizer class, go by the vocabulary
+        num_sp, num_gpt2 = (sum(t.startswith(c) for t in vocab) for c in ("▁", "Ġ"))
+        word_start_prefix = "▁" if num_sp > num_gpt2 else "Ġ"
+        LOG.warning(
+            f"Unknown tokenizer type - assuming '{word_start_prefix}' word start prefix"
+        )
 
     return {
         normalize_token(
-- 
2.43.0


From f573f8069f8a2b10738ee0f3ff742d22bb8c570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 061/147] fix: subword approximation crashed when a subword
 token has no row in the embedding

---
 mergekit/tokensurgeon/subword.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index 8811bbc..4d340cf 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -32,7 +32,11 @@ def subword_approximate(
     )
     for idx, token in enumerate(target_tokens):
         text = unnormalize_token(token)
-        token_ids = tok_0(text, add_special_tokens=False)["input_ids"]
+        token_ids = [
+            id
+            for id in tok_0(text, add_special_tokens=False)["input_ids"]
+            if id < orig_embed.shape[0]  # tokens may lack a row
+        ]
 
         if subword_method in (SubwordMethod.MEAN, SubwordMethod.SUM):
             for id in token_ids:
-- 
2.43.0


From eacdcfd8a22453e1bff356f8a6aae7d93fdd97c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:25 +0000
Subject: [PATCH 062/147] fix: mixtures of experts crashed if a shared expert's
 model is used for nothing else

---
 mergekit/moe/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 2b1ea00..e1fc6e4 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -24,7 +24,9 @@ def initialize_io(
     base_model = config.base_model
     loaders: Dict[ModelReference, LazyTensorLoader] = {}
     for model in tqdm.tqdm(
-        [base_model] + [e.source_model for e in config.experts], desc="Warm up loaders"
+        [base_model]
+        + [e.source_model for e in config.experts + (config.shared_experts or [])],
+        desc="Warm up loaders",
     ):
         loaders[model] = model.lazy_loader(
             cache_dir=merge_options.transformers_cache,
-- 
2.43.0


From f91c92508d20a1ffd73442b397c55b5fb5bd73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:25 +0000
Subject: [PATCH 063/147] fix: DeepSeek mixtures of experts could only be
 written to existing directories

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 03ff072..a877e58 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -118,6 +118,7 @@ class DeepseekMoE(MoEOutputArchitecture):
         )
         if out_dtype is not None:
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
+        os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
             json.dump(out_cfg, f, indent=4)
 
-- 
2.43.0


From d0b5ecd0100b85e8538e9c16c93a554970539192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:25 +0000
Subject: [PATCH 064/147] fix: configurations of DeepSeek mixtures of experts
 stated the dtype of the base model

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index a877e58..1a4a1dc 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -117,6 +117,7 @@ class DeepseekMoE(MoEOutputArchitecture):
             config.experts_per_token,
         )
         if out_dtype is not None:
+            out_cfg.pop("dtype", None)
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
         os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
-- 
2.43.0


From 5f7f15acde0b76a4d0b3f487a262752479fe8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 065/147] fix: the uniform_random gate mode demanded prompts

---
 mergekit/moe/config.py | 2 +-
 mergekit/moe/qwen.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/moe/config.py b/mergekit/moe/config.py
index 977c9db..dce9f66 100644
--- a/mergekit/moe/config.py
+++ b/mergekit/moe/config.py
@@ -51,7 +51,7 @@ def is_bad_config(config: MoEMergeConfig, allow_all_same: bool = False) -> bool:
         logging.error("Must include at least as many experts as experts_per_token.")
         return True
 
-    if config.gate_mode == "random":
+    if config.gate_mode in ("random", "uniform_random"):
         return False  # eh we're good
 
     for expert_idx, expert in enumerate(config.experts):
diff --git a/mergekit/moe/qwen.py b/mergekit/moe/qwen.py
index 8fcfef8..cc8b0c5 100644
--- a/mergekit/moe/qwen.py
+++ b/mergekit/moe/qwen.py
@@ -37,7 +37,7 @@ class QwenMoE(MoEOutputArchitecture):
             return False
 
         if (
-            config.gate_mode != "random"
+            config.gate_mode not in ("random", "uniform_random")
             and not config.shared_experts[0].positive_prompts
         ):
             if explain:
-- 
2.43.0


From c215dd63a87fa77a6e952b73117daa2ab4f380b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 066/147] fix: the hidden_avg gate mode averaged over padding

---
 mergekit/moe/router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/router.py b/mergekit/moe/router.py
index c0bc08c..bdd6a7b 100644
--- a/mergekit/moe/router.py
+++ b/mergekit/moe/router.py
@@ -29,7 +29,8 @@ def get_hidden_states(
     )  # (num_layers, batch_size, seq_len, hidden_size)
     if average:
         # use average over sequence
-        hidden_states = hidden_states.sum(dim=2) / hidden_states.shape[2]
+        mask = tokenized["attention_mask"].to(hidden_states)[None, :, :, None]
+        hidden_states = (hidden_states * mask).sum(dim=2) / mask.sum(dim=2)
     else:
         # take last value
         hidden_states = hidden_states[:, :, -1, :]
-- 
2.43.0


From 8b60881e91c7f3288628daffda2f7939e181ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 067/147] fix: Qwen mixtures of experts of models with their
 own head size got biases of the wrong size

---
 mergekit/moe/qwen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/qwen.py b/mergekit/moe/qwen.py
index cc8b0c5..9105c62 100644
--- a/mergekit/moe/qwen.py
+++ b/mergekit/moe/qwen.py
@@ -156,7 +156,10 @@ class QwenMoE(MoEOutputArchitecture):
                 except KeyError:
                     if tensor_name.endswith("_proj.bias"):
                         # qwen 2 moe wants attention bias, give it zeros
-                        head_dim = out_cfg.hidden_size // out_cfg.num_attention_heads
+                        head_dim = (
+                            getattr(out_cfg, "head_dim", None)
+                            or out_cfg.hidden_size // out_cfg.num_attention_heads
+                        )
                         num_heads = (
                             out_cfg.num_key_value_heads
                             if (
-- 
2.43.0


From 6a93610d6b8b28cf985740bf9b7a33edebd30fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 068/147] fix: padding settings for computing hidden states
 were saved with the tokenizer

---
 mergekit/scripts/moe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index 44061ad..50f9e6a 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -79,7 +79,10 @@ def build(
 
     if merge_options.copy_tokenizer:
         logging.info("Saving tokenizer...")
-        tokenizer.save_pretrained(out_path, safe_serialization=True)
+        # the one used for prompts has had its padding changed
+        transformers.AutoTokenizer.from_pretrained(
+            base_model.model.path, revision=base_model.model.revision
+        ).save_pretrained(out_path, safe_serialization=True)
 
     logging.info("Done.")
 
-- 
2.43.0


From 6a05cc3338bbee70005da0342df79c3649e3da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:46 +0000
Subject: [PATCH 069/147] fix: extracted adapters lost changes to biases

---
 mergekit/scripts/extract_lora.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a40460d..00234b4 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -205,6 +205,7 @@ def make_config_dict(
         "base_model_name_or_path": base_ref.model.path,
         "peft_type": "LORA",
         "use_rslora": False,
+        "bias": "lora_only",
         "target_modules": target_modules,
         "modules_to_save": modules_to_save,
         "task_type": "CAUSAL_LM",
@@ -507,17 +508,14 @@ def plan_lora_module(
         )
     )
     if bias_wi is not None:
-        base_bias_load_task = _wi_load(base_model_ref, bias_wi)
-        model_bias_load_task = _wi_load(model_ref, bias_wi)
-        tv_bias_task = TaskVectorTask(
-            base_tensor=base_bias_load_task, model_tensor=model_bias_load_task
-        )
+        # PEFT only applies `lora_B.bias` if all adapted modules have a bias, so
+        # replace the bias of the adapted module instead
         base_bias_name = bias_wi.name.removesuffix(".bias")
-        name_out = f"base_model.model.{base_bias_name}.lora_B.bias"
+        name_out = f"base_model.model.{base_bias_name}.base_layer.bias"
         targets.append(
             SaveTensor(
                 tensor_name=name_out,
-                tensor_task=tv_bias_task,
+                tensor_task=_wi_load(model_ref, bias_wi),
                 writer_task=writer_task,
                 optional=bias_wi.optional,
                 clone=False,
-- 
2.43.0


From 8db35cd681f7331c8ff8d28565daec1a1ae8a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 070/147] fix: extract-lora crashed when given modules to save

---
 mergekit/scripts/extract_lora.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 00234b4..b630318 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -115,8 +115,7 @@ def main(
 ):
     merge_options.apply_global_options()
 
-    if not modules_to_save:
-        modules_to_save = []
+    modules_to_save = list(modules_to_save or [])
 
     base_model_ref = ModelReference.model_validate(base_model)
     model_ref = ModelReference.model_validate(model)
-- 
2.43.0


From bfb5cdb297771d82c018b47e7d9a317aaccfe9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 071/147] fix: adapters extracted from models with unchanged
 modules could not be loaded with a singular value threshold

---
 mergekit/scripts/extract_lora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index b630318..0bf9019 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -238,7 +238,8 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
         )
         rank = min(self.max_rank, s.shape[0])
         if self.sv_epsilon > 0:
-            rank = min((s > self.sv_epsilon).sum().item(), rank)
+            # adapters of rank zero can not be loaded
+            rank = max(min((s > self.sv_epsilon).sum().item(), rank), 1)
         if self.distribute_scale:
             sqrt_s = torch.diag(torch.sqrt(s[:rank]))
             scale_a = sqrt_s
-- 
2.43.0


From 6fa7e24b56d02149214dbe0646aa94b06f3cb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 072/147] fix: extracted adapters of convolutions had the wrong
 shape

---
 mergekit/scripts/extract_lora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0bf9019..947078e 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -434,7 +434,7 @@ def plan_extraction(
             LOG.info(f"Planning to save {name} at full rank")
             targets.extend(plan_module_to_save(model_ref, writer_task, wi, bias_wi))
         elif _should_extract(name):
-            if isinstance(module, (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Embedding)):
+            if isinstance(module, (nn.Linear, nn.Embedding)):
                 LOG.info(f"Planning LoRA extraction for {name}")
                 targets.extend(
                     plan_lora_module(
-- 
2.43.0


From 3b1bd5b57b72330ad4da52c4e43f5f41005ed19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:37 +0000
Subject: [PATCH 073/147] fix: extracted adapters could not be loaded if only
 some modules of a kind were included

---
 mergekit/scripts/extract_lora.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 947078e..a14f3fd 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -167,9 +167,11 @@ def main(
     config_dict = make_config_dict(
         base_ref=base_model_ref,
         max_rank=real_max_rank,
-        modules_to_save=modules_to_save,
-        target_modules=list(
-            set(key.split(".")[-1] for key in module_real_ranks.keys())
+        modules_to_save=module_patterns(
+            plan_result.saved_modules, plan_result.all_modules
+        ),
+        target_modules=module_patterns(
+            list(module_real_ranks.keys()), plan_result.all_modules
         ),
         module_ranks=module_real_ranks,
     )
@@ -192,6 +194,19 @@ def main(
     LOG.info(f"LoRA adapter extracted to {out_path}")
 
 
+def module_patterns(names: List[str], all_names: List[str]) -> List[str]:
+    """Names by which PEFT will find the given modules and no others."""
+    selected = set(names)
+    res = set()
+    for name in names:
+        leaf = name.split(".")[-1]
+        if all(n in selected for n in all_names if n.endswith(leaf)):
+            res.add(leaf)
+        else:
+            res.add(name)
+    return sorted(res)
+
+
 def make_config_dict(
     base_ref: ModelReference,
     max_rank: int,
@@ -342,6 +357,8 @@ def _make_dummy_model(
 
 class PlanResults(BaseModel):
     tasks: List[Task]
+    all_modules: List[str]
+    saved_modules: List[str]
     base_vocab_size: int
     final_vocab_size: int
 
@@ -387,6 +404,7 @@ def plan_extraction(
         embed_lora = False
     del dummy_base
 
+    saved_modules = []
     warned_modules = set()
 
     def _should_extract(name: str) -> bool:
@@ -432,6 +450,7 @@ def plan_extraction(
 
         if name in modules_to_save or (name.split(".")[-1] in modules_to_save):
             LOG.info(f"Planning to save {name} at full rank")
+            saved_modules.append(name)
             targets.extend(plan_module_to_save(model_ref, writer_task, wi, bias_wi))
         elif _should_extract(name):
             if isinstance(module, (nn.Linear, nn.Embedding)):
@@ -457,8 +476,7 @@ def plan_extraction(
                 )
                 if not skip_undecomposable:
                     # into modules_to_save it goes
-                    if key not in modules_to_save:
-                        modules_to_save.append(key)
+                    saved_modules.append(name)
                     targets.extend(
                         plan_module_to_save(model_ref, writer_task, wi, bias_wi)
                     )
@@ -470,6 +488,8 @@ def plan_extraction(
     finalize = FinalizeModel(tensor_save_tasks=save_tasks, writer_task=writer_task)
     return PlanResults(
         tasks=targets + [finalize],
+        all_modules=[name for name, _ in dummy_model.named_modules()],
+        saved_modules=saved_modules,
         base_vocab_size=base_vocab,
         final_vocab_size=ft_vocab,
     )
-- 
2.43.0


From 81f80f155a2352c0414fdfaae9c8ef7ec17de1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 074/147] fix: adapters for tied embeddings were applied twice
 when merged

---
 mergekit/scripts/extract_lora.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a14f3fd..5ff3974 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -403,6 +403,12 @@ def plan_extraction(
         LOG.warning("Enforcing embeddings in modules_to_save, embed_lora=False")
         embed_lora = False
     del dummy_base
+    if embed_lora and dummy_model.config.tie_word_embeddings:
+        LOG.warning(
+            "Embeddings are tied, and merging adapters of both would apply them twice"
+        )
+        LOG.warning("Enforcing embeddings in modules_to_save, embed_lora=False")
+        embed_lora = False
 
     saved_modules = []
     warned_modules = set()
-- 
2.43.0


From 3b848710f51dd9cedd7aaa24d8c899b0c549ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 075/147] fix: output head of LFM2 models was not known to be
 tied to the embedding

---
 mergekit/_data/architectures/lfm2.json | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index d383d93..ec900e4 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -18,7 +18,10 @@
         {
             "name": "lm_head.weight",
             "is_embed": true,
-            "optional": true
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
-- 
2.43.0


From 8791b61a952a5f810b790fc5087aa5dd61f25b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:08 +0000
Subject: [PATCH 076/147] fix: extracted adapters left out changes to the
 experts of mixtures

---
 mergekit/scripts/extract_lora.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 5ff3974..dc3282a 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -436,6 +436,29 @@ def plan_extraction(
                     is_embed=isinstance(module, nn.Embedding),
                 )
             else:
+                # e.g. the experts of a mixture, which are all in one parameter
+                names = [
+                    f"{name}.{param}"
+                    for param, _ in module.named_parameters(recurse=False)
+                ]
+                if (
+                    names
+                    and len(names) == len(list(module.parameters()))
+                    and all(n in name_to_wi for n in names)
+                    and _should_extract(name)
+                ):
+                    LOG.warning(
+                        f"{name} can not be decomposed - "
+                        + ("skipping" if skip_undecomposable else "saving at full rank")
+                    )
+                    if not skip_undecomposable:
+                        saved_modules.append(name)
+                        for n in names:
+                            targets.extend(
+                                plan_module_to_save(
+                                    model_ref, writer_task, name_to_wi[n], None
+                                )
+                            )
                 continue
 
         if (
-- 
2.43.0


From ebc14b9f655fbdfe33d23867dd847cf7eb9491f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:23 +0000
Subject: [PATCH 077/147] fix: interrupted adapter merges left incomplete
 models in the cache, which later merges used

---
 mergekit/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 2ae9233..a540209 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import tempfile
 from typing import (
     Any,
     Callable,
@@ -116,8 +117,6 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
-
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
 
@@ -134,7 +133,12 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+            # only a completely written model may appear in the cache
+            os.makedirs(cache_dir, exist_ok=True)
+            with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
+                tmp_path = os.path.join(tmp_dir, "merged")
+                model.save_pretrained(tmp_path, safe_serialization=True)
+                os.rename(tmp_path, out_path)
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From d7e3d241cc3cd921812e966012c735e07a4ac4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:23 +0000
Subject: [PATCH 078/147] fix: different adapters, models or dtypes could share
 one merged model in the cache

---
 mergekit/common.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index a540209..dc2f838 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -1,7 +1,8 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
-import binascii
+import hashlib
+import json
 import logging
 import os
 import os.path
@@ -82,10 +83,13 @@ class ModelPath(BaseModel, frozen=True):
         return self.path
 
     def _unique_id(self):
+        # relative paths mean something else in another working directory
+        path = os.path.abspath(self.path) if os.path.exists(self.path) else self.path
+        key = json.dumps([path, self.revision])
         return (
             os.path.basename(self.path)
             + "_"
-            + str(binascii.crc32(self.__str__().encode()))
+            + hashlib.sha256(key.encode()).hexdigest()[:16]
         )
 
 
@@ -113,7 +117,10 @@ class ModelReference(BaseModel, frozen=True):
 
         out_path = os.path.join(
             cache_dir,
-            self.model._unique_id() + "_" + self.lora._unique_id(),
+            "_".join(
+                [self.model._unique_id(), self.lora._unique_id()]
+                + [x for x in (lora_merge_dtype, self.override_architecture) if x]
+            ),
         )
 
         if not os.path.exists(out_path):
-- 
2.43.0


From 34ac9a947ff108c3cb03207d668a9ba6dbe438f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:23 +0000
Subject: [PATCH 079/147] fix: files that belong to a model were not copied if
 it was given with an adapter

---
 mergekit/merge.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 86c2f10..e4f9c14 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -232,11 +232,10 @@ def _get_donor_model(
     options: MergeOptions,
 ) -> Tuple[ModelReference, str]:
     donor_model = merge_config.base_model or (merge_config.referenced_models()[0])
-    donor_local_path = donor_model.merged(
-        cache_dir=options.lora_merge_cache,
-        trust_remote_code=options.trust_remote_code,
-        lora_merge_dtype=options.lora_merge_dtype,
-    ).local_path(cache_dir=options.transformers_cache)
+    # the tokenizer and other files of the model itself, whatever its adapter
+    donor_local_path = donor_model.local_path(
+        cache_dir=options.transformers_cache, ignore_lora=True
+    )
     if not donor_local_path:
         raise RuntimeError(f"Unable to find local path for {donor_model}")
     return donor_model, donor_local_path
-- 
2.43.0


From f03db7fb0f73080f109639502fd66361293c7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 080/147] fix: of models that differ only in the architecture
 they are read as, one was left out

---
 mergekit/io/tasks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 71d99c0..e7098fd 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -150,7 +150,7 @@ class GatherTensors(Task[Dict[ModelReference, torch.Tensor]]):
 
     def arguments(self) -> Dict[str, Task]:
         return {
-            f"{str(model)}:{wi.name}": LoadTensor(
+            f"{model!r}:{wi.name}": LoadTensor(
                 model=model,
                 tensor=wi.name,
                 dtype=wi.force_dtype or self.dtype,
@@ -170,7 +170,7 @@ class GatherTensors(Task[Dict[ModelReference, torch.Tensor]]):
 
     def execute(self, **kwargs) -> Dict[ModelReference, torch.Tensor]:
         key2model = {
-            f"{str(model)}:{wi.name}": model for (model, wi) in self.weight_info.items()
+            f"{model!r}:{wi.name}": model for (model, wi) in self.weight_info.items()
         }
         return {
             key2model[key]: kwargs[key] for key in key2model if kwargs[key] is not None
-- 
2.43.0


From 304d1a0d2972ef32d08f443e31a41dfd35373a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:27 +0000
Subject: [PATCH 081/147] fix: raw merges took parameters of zero for missing
 ones, and failed for models without parameters

---
 mergekit/scripts/merge_raw_pytorch.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 3b84d2b..99d4ab2 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -189,14 +189,11 @@ def construct_param_dicts(
         for model_def in config.models:
             mr = ModelReference.model_validate({"model": {"path": model_def.model}})
             tensor_params[mr] = tensor_params.get(mr, {})
-            if value := evaluate_setting(
-                tensor_name, model_def.parameters.get(param_def.name, [])
-            ):
-                tensor_params[mr][param_def.name] = value
-            elif value := evaluate_setting(
-                tensor_name,
-                config.parameters.get(param_def.name, []) if config.parameters else [],
-            ):
+            value = None
+            for settings in (model_def.parameters, config.parameters):
+                if value is None and settings and param_def.name in settings:
+                    value = evaluate_setting(tensor_name, settings[param_def.name])
+            if value is not None:
                 tensor_params[mr][param_def.name] = value
             elif param_def.required:
                 raise RuntimeError(
-- 
2.43.0


From 7b0b940fc13d549233603fbad726107dffe3ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:27 +0000
Subject: [PATCH 082/147] fix: raw merges of the union of tensors failed for
 tensors that a model lacks

---
 mergekit/merge_methods/base.py        | 6 +++++-
 mergekit/scripts/merge_raw_pytorch.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/base.py b/mergekit/merge_methods/base.py
index 03b2284..27c156f 100644
--- a/mergekit/merge_methods/base.py
+++ b/mergekit/merge_methods/base.py
@@ -27,7 +27,11 @@ class TensorDictWrapper(Task[Dict[ModelReference, torch.Tensor]]):
         }
 
     def execute(self, **kwargs) -> Dict[ModelReference, torch.Tensor]:
-        return {ModelReference.model_validate_json(k): v for k, v in kwargs.items()}
+        return {
+            ModelReference.model_validate_json(k): v
+            for k, v in kwargs.items()
+            if v is not None
+        }
 
 
 MergeTensorInput: TypeAlias = Union[
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 99d4ab2..5e0882c 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -64,7 +64,9 @@ class SimpleLoadTensor(Task[torch.Tensor]):
 
     def execute(self) -> torch.Tensor:
         loader = SimpleLoaderCache().get(self.model)
-        tensor = loader.get_tensor(self.tensor_name, device=self.device or "cpu")
+        tensor = loader.get_tensor(
+            self.tensor_name, device=self.device or "cpu", raise_on_missing=False
+        )
         if tensor is None:
             return None
         if dt := dtype_from_name(self.dtype):
-- 
2.43.0


From d56c78770b85106cfaa59494f09173c0f1daf6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:27 +0000
Subject: [PATCH 083/147] fix: raw merges failed or lost tensors if the base
 model was not among the models

---
 mergekit/scripts/merge_raw_pytorch.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 5e0882c..05241dd 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -86,8 +86,11 @@ def plan_flat_merge(
     loaders = SimpleLoaderCache()
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = set()
-    for model_def in tqdm.tqdm(config.models, desc="Preparing model loaders"):
-        loader = loaders.get(model_def.model)
+    model_paths = [model_def.model for model_def in config.models]
+    if config.base_model is not None and config.base_model not in model_paths:
+        model_paths.append(config.base_model)
+    for model_path in tqdm.tqdm(model_paths, desc="Preparing model loaders"):
+        loader = loaders.get(model_path)
         all_tensor_names.update(loader.index.tensor_paths.keys())
 
     writer_task = TensorWriterTask(
@@ -101,15 +104,11 @@ def plan_flat_merge(
     save_tasks = []
     for tensor_name in tqdm.tqdm(list(all_tensor_names), desc="Planning operations"):
         inputs = {
-            model_def.model: SimpleLoadTensor(
-                model=model_def.model, tensor_name=tensor_name, dtype=config.dtype
+            model_path: SimpleLoadTensor(
+                model=model_path, tensor_name=tensor_name, dtype=config.dtype
             )
-            for model_def in config.models
+            for model_path in model_paths
         }
-        if config.base_model is not None and config.base_model not in inputs:
-            inputs[config.base_model] = SimpleLoadTensor(
-                model=config.base_model, tensor_name=tensor_name, dtype=config.dtype
-            )
 
         has_tensor = [
             lt.model
@@ -186,9 +185,15 @@ def construct_param_dicts(
             else:
                 global_params[param_def.name] = param_def.default_value
 
+    models = list(config.models)
+    if config.base_model is not None and all(
+        model_def.model != config.base_model for model_def in models
+    ):
+        models.append(InputModelDefinition(model=config.base_model))
+
     tensor_params = {}
     for param_def in merge_method.tensor_parameters():
-        for model_def in config.models:
+        for model_def in models:
             mr = ModelReference.model_validate({"model": {"path": model_def.model}})
             tensor_params[mr] = tensor_params.get(mr, {})
             value = None
@@ -197,7 +202,7 @@ def construct_param_dicts(
                     value = evaluate_setting(tensor_name, settings[param_def.name])
             if value is not None:
                 tensor_params[mr][param_def.name] = value
-            elif param_def.required:
+            elif param_def.required and model_def.model != config.base_model:
                 raise RuntimeError(
                     f"Missing required parameter {param_def.name} for model {mr} tensor {tensor_name}"
                 )
-- 
2.43.0


From 7e0eeb470642a5b857e780b8f9ca427cf41bc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:27 +0000
Subject: [PATCH 084/147] fix: raw merges in the same process used earlier
 contents of the model files

---
 mergekit/scripts/merge_raw_pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 05241dd..03a4bb4 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -84,6 +84,7 @@ def plan_flat_merge(
     merge_method = merge_methods.get(config.merge_method)
 
     loaders = SimpleLoaderCache()
+    loaders.loaders.clear()
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = set()
     model_paths = [model_def.model for model_def in config.models]
-- 
2.43.0


From 376fb624d6fba51d19f083b124650a3dac859d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:27 +0000
Subject: [PATCH 085/147] fix: order of operations of raw merges depended on
 the hash seed

---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 03a4bb4..f69de38 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -103,7 +103,7 @@ def plan_flat_merge(
     )
 
     save_tasks = []
-    for tensor_name in tqdm.tqdm(list(all_tensor_names), desc="Planning operations"):
+    for tensor_name in tqdm.tqdm(sorted(all_tensor_names), desc="Planning operations"):
         inputs = {
             model_path: SimpleLoadTensor(
                 model=model_path, tensor_name=tensor_name, dtype=config.dtype
-- 
2.43.0


From ecd8157ea0d9b5da7b5cb227c14e176193738fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:59 +0000
Subject: [PATCH 086/147] fix: order of the models in raw merges depended on
 the hash seed

---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index f69de38..8c9c599 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -142,7 +142,7 @@ def plan_flat_merge(
 
         tensor_task = merge_method.make_task(
             output_weight=WeightInfo(name=tensor_name),
-            tensors=TensorDictWrapper(tensors=inputs),
+            tensors=TensorDictWrapper(tensors=ImmutableMap(data=inputs)),
             parameters=ImmutableMap(global_params),
             tensor_parameters=ImmutableMap(
                 data={
-- 
2.43.0


From 1ecc6396f70fcec0527c39ea84b16558a0a2a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:48 +0000
Subject: [PATCH 087/147] fix: multi-stage recipes failed if text in them was
 the name of a merge or held several '+' or '@'

---
 mergekit/scripts/multimerge.py | 50 ++++++++++++++--------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..480dfcc 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -3,10 +3,11 @@
 
 import logging
 import os
-from typing import Dict, Optional, Set, Tuple, Union
+from typing import Any, Dict, Optional, Set, Tuple
 
 import click
 import yaml
+from pydantic import BaseModel
 
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import MergeConfiguration
@@ -133,39 +134,28 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
-    def _patch_mr(value: Union[dict, list, str, int, None]):
-        nonlocal used
-        if isinstance(value, list):
-            return [_patch_mr(x) for x in value]
-        elif isinstance(value, dict):
-            if set(value.keys()) == {"model", "lora", "override_architecture"}:
-                # is a ModelReference
-                base = value["model"]["path"]
-                if base in merge_names:
-                    value["model"] = value["model"].copy()
-                    value["model"]["path"] = os.path.join(working_dir, base)
-                    used.add(base)
+    def _patch_mr(value: Any) -> Any:
+        if isinstance(value, ModelReference):
+            if value.model.path not in merge_names:
                 return value
+            used.add(value.model.path)
+            path = os.path.join(working_dir, value.model.path)
+            return value.model_copy(
+                update={"model": value.model.model_copy(update={"path": path})}
+            )
+        elif isinstance(value, BaseModel):
+            return value.model_copy(
+                update={
+                    k: _patch_mr(getattr(value, k)) for k in value.model_fields_set
+                }
+            )
+        elif isinstance(value, (list, tuple)):
+            return type(value)(_patch_mr(x) for x in value)
+        elif isinstance(value, dict):
             return {k: _patch_mr(v) for k, v in value.items()}
-        elif isinstance(value, str):
-            try:
-                mr = ModelReference.model_validate(value)
-                if mr.model.path in merge_names:
-                    used.add(mr.model.path)
-                    return ModelReference(
-                        model={
-                            "path": os.path.join(working_dir, mr.model.path),
-                            "revision": mr.model.revision,
-                        },
-                        lora=mr.lora,
-                        override_architecture=mr.override_architecture,
-                    ).model_dump()
-            except ValueError:
-                pass
         return value
 
-    new_dict = _patch_mr(config.model_dump())
-    return MergeConfiguration.model_validate(new_dict), used
+    return _patch_mr(config), used
 
 
 def make_tasks(
-- 
2.43.0


From 69d7c5e610c62d934c5ce2d83b7def8773ef8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:48 +0000
Subject: [PATCH 088/147] fix: interrupted stages of multi-stage merges could
 be taken for complete ones

---
 mergekit/scripts/multimerge.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 480dfcc..8666769 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -24,6 +24,8 @@ MODEL_CHECK_FILENAMES = [
     "model.safetensors.index.json",
     "pytorch_model.bin.index.json",
 ]
+# present in the output directory of a merge from its start to its end
+INCOMPLETE_MARKER = ".mergekit_incomplete"
 
 
 class MergeModelTask(Task[str]):
@@ -38,8 +40,10 @@ class MergeModelTask(Task[str]):
         return {str(key): self.input_merges[key] for key in self.input_merges}
 
     def execute(self, **kwargs):
+        marker = os.path.join(self.out_path, INCOMPLETE_MARKER)
         if (
             self.lazy
+            and not os.path.exists(marker)
             and os.path.exists(os.path.join(self.out_path, "config.json"))
             and any(
                 os.path.exists(os.path.join(self.out_path, filename))
@@ -52,11 +56,16 @@ class MergeModelTask(Task[str]):
         LOG.info(f"Running merge for {self.name}")
         cfg = MergeConfiguration.model_validate(yaml.safe_load(self.config_yaml))
 
+        os.makedirs(self.out_path, exist_ok=True)
+        with open(marker, "w", encoding="utf-8"):
+            pass
         run_merge(
             cfg,
             self.out_path,
             options=self.options,
         )
+        if os.path.exists(marker):
+            os.remove(marker)
         LOG.info(f"Merge complete for {self.name}")
         return self.out_path
 
-- 
2.43.0


From 820084eb723ccfd2a36d1ffbaf107867a1401eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 089/147] fix: genotypes with the wrong number of layer groups
 or parameter sets were accepted

---
 mergekit/evo/genome.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index fdb1ac7..e2c3513 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -104,6 +104,9 @@ class ModelGenome:
         (n_layer_groups, n_models, n_param_sets, n_params) = genotype.shape
         if self.definition.layer_granularity > 0:
             assert n_layer_groups * self.definition.layer_granularity == self.num_layers
+        else:
+            assert n_layer_groups == 1
+        assert n_param_sets == len(self.definition.filters or []) + 1
         assert n_models == len(self.definition.models)
         assert n_params == len(METHOD_PARAM_MAPS[self.definition.merge_method])
 
-- 
2.43.0


From 69c00187b492db973a54938a83a48de21c1b43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 090/147] fix: slerp genomes with a separate base model gave
 recipes with three models per slice

---
 mergekit/evo/genome.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index e2c3513..8d6b7e7 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -302,19 +302,6 @@ class ModelGenome:
                 s["sources"][0]["parameters"] = {"weight": 1 - t}
                 s["sources"][1]["parameters"] = {"weight": t}
 
-            if self.definition.base_model and (
-                self.definition.base_model not in self.definition.models
-            ):
-                s["sources"].append(
-                    {
-                        "model": self.definition.base_model,
-                        "layer_range": [
-                            slice_idx * layer_step,
-                            (slice_idx + 1) * layer_step,
-                        ],
-                    }
-                )
-
             slices.append(s)
         return slices
 
-- 
2.43.0


From d512cb71884a0dc2203954369edec04c046aaff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 091/147] fix: slerp genomes used negative values even where
 negative weights are not allowed

---
 mergekit/evo/genome.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index 8d6b7e7..972c2fb 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -111,6 +111,8 @@ class ModelGenome:
         assert n_params == len(METHOD_PARAM_MAPS[self.definition.merge_method])
 
         if self.definition.merge_method == "slerp":
+            if not self.definition.allow_negative_weights:
+                genotype = torch.abs(genotype)
             slices = self._slerp_slices(genotype)
             models = None
         else:
-- 
2.43.0


From b9f4f1920620f78213438e81abc0125b78793d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:01 +0000
Subject: [PATCH 092/147] fix: linear genomes with a separate base model gave
 recipes without a weight for it

---
 mergekit/evo/genome.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index 972c2fb..e7e6e8d 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -210,15 +210,16 @@ class ModelGenome:
             if self.definition.base_model and (
                 self.definition.base_model not in self.definition.models
             ):
-                sources.append(
-                    {
-                        "model": self.definition.base_model,
-                        "layer_range": [
-                            slice_idx * layer_step,
-                            (slice_idx + 1) * layer_step,
-                        ],
-                    }
-                )
+                base_source = {
+                    "model": self.definition.base_model,
+                    "layer_range": [
+                        slice_idx * layer_step,
+                        (slice_idx + 1) * layer_step,
+                    ],
+                }
+                if self.definition.merge_method == "linear":
+                    base_source["parameters"] = {"weight": 0.0}
+                sources.append(base_source)
             slices.append({"sources": sources})
         return slices
 
@@ -258,7 +259,10 @@ class ModelGenome:
         if self.definition.base_model and (
             self.definition.base_model not in self.definition.models
         ):
-            models.append({"model": self.definition.base_model})
+            base_input = {"model": self.definition.base_model}
+            if self.definition.merge_method == "linear":
+                base_input["parameters"] = {"weight": 0.0}
+            models.append(base_input)
         return models
 
     def _slerp_slices(self, genotype: torch.Tensor) -> List[Dict]:
-- 
2.43.0


From a087e1a7300a390a1c159c9910a59cd729588f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:08 +0000
Subject: [PATCH 093/147] fix: models with pickled weights could not be filled,
 and their index was copied along

---
 mergekit/scripts/fill_missing_params.py | 44 +++++--------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index b0bb7b0..473b489 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -6,47 +6,15 @@ from pathlib import Path
 from typing import List, Optional, Tuple
 
 import click
-import torch
 from huggingface_hub import snapshot_download
-from safetensors import safe_open
 from tqdm import tqdm
 
-from mergekit.io.lazy_tensor_loader import ShardedTensorIndex
+from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex
 from mergekit.io.tensor_writer import TensorWriter
 
 DEFAULT_SHARD_SIZE = 5 * 1024**3
 
 
-def load_tensor_from_file(tensor_name: str, tensor_file: str = None) -> torch.Tensor:
-    """
-    Load a specific tensor from a .safetensors file.
-
-    :param tensor_name: The name of the tensor to load.
-    :param tensor_file: The .safetensors file that contains the tensor.
-    :return: The loaded tensor as a PyTorch tensor.
-    """
-    with safe_open(tensor_file, framework="pt", device="cpu") as f:
-        if tensor_name in f.keys():
-            return f.get_tensor(tensor_name)
-        else:
-            raise ValueError(
-                f"Tensor '{tensor_name}' not found in file '{tensor_file}'"
-            )
-
-
-def load_tensor_from_index(tensor_name: str, index: ShardedTensorIndex) -> torch.Tensor:
-    """
-    Load a specific tensor from a ShardedTensorIndex.
-
-    :param tensor_name: The name of the tensor to load.
-    :param index: The ShardedTensorIndex containing the tensor.
-    :return: The loaded tensor as a PyTorch tensor.
-    """
-    return load_tensor_from_file(
-        tensor_name, Path(index.base_path) / index.tensor_paths[tensor_name]
-    )
-
-
 def copy_and_fill_missing_params(
     base_model_repo_id: str,
     sub_model_dir: str,
@@ -109,7 +77,9 @@ def copy_and_fill_missing_params(
     files_to_copy = [
         item
         for item in base_dir.rglob("*")
-        if item.is_file() and item.suffix not in {".safetensors", ".bin"}
+        if item.is_file()
+        and item.suffix not in {".safetensors", ".bin"}
+        and not item.name.endswith((".safetensors.index.json", ".bin.index.json"))
     ]
 
     # Copy non-parameter files from the base model
@@ -143,6 +113,8 @@ def copy_and_fill_missing_params(
     submodel_index = ShardedTensorIndex.from_disk(
         str(ParameterNamesUtils.resolve_model_directory(sub_model_dir))
     )
+    base_loader = LazyTensorLoader(base_index, lazy_unpickle=False)
+    submodel_loader = LazyTensorLoader(submodel_index, lazy_unpickle=False)
 
     # Initialize the tensor writer
     writer = TensorWriter(
@@ -156,12 +128,12 @@ def copy_and_fill_missing_params(
         desc="Merging tensors",
         unit="tensor",
     ):
-        tensor = load_tensor_from_index(name, base_index)
+        tensor = base_loader.get_tensor(name)
 
         # Check if the parameter is common to both models
         if name in common_param_names:
             submodel_name = ParameterNamesUtils.strip_prefix(name, prefix)
-            submodel_tensor = load_tensor_from_index(submodel_name, submodel_index)
+            submodel_tensor = submodel_loader.get_tensor(submodel_name)
 
             # Log size mismatches
             if submodel_tensor.size() != tensor.size():
-- 
2.43.0


From d1ed848f32f821e63d0f829a40769613696b44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:08 +0000
Subject: [PATCH 094/147] fix: filling missing parameters replaced those of the
 submodel that lie outside the common prefix

---
 mergekit/scripts/fill_missing_params.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 473b489..69d16dc 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -104,8 +104,20 @@ def copy_and_fill_missing_params(
 
     # Determine parameter prefix and find common names
     prefix = ParameterNamesUtils.find_prefix(base_param_names, submodel_param_names)
-    common_param_names = ParameterNamesUtils.find_common_ordered_names(
-        [base_param_names, submodel_param_names], ["", prefix]
+    submodel_names = {
+        name: ParameterNamesUtils.strip_prefix(name, prefix)
+        for name in ParameterNamesUtils.find_common_ordered_names(
+            [base_param_names, submodel_param_names], ["", prefix]
+        )
+    }
+    # parameters that are not below the prefix have the same name in both models
+    outside = set(submodel_param_names) - set(submodel_names.values())
+    submodel_names.update(
+        {
+            name: name
+            for name in base_param_names
+            if name in outside and name not in submodel_names
+        }
     )
 
     # Load parameter indices for tensor storage
@@ -131,9 +143,8 @@ def copy_and_fill_missing_params(
         tensor = base_loader.get_tensor(name)
 
         # Check if the parameter is common to both models
-        if name in common_param_names:
-            submodel_name = ParameterNamesUtils.strip_prefix(name, prefix)
-            submodel_tensor = submodel_loader.get_tensor(submodel_name)
+        if name in submodel_names:
+            submodel_tensor = submodel_loader.get_tensor(submodel_names[name])
 
             # Log size mismatches
             if submodel_tensor.size() != tensor.size():
-- 
2.43.0


From 149945c3c20834ea77140ac9799c520b8a7439f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:08 +0000
Subject: [PATCH 095/147] fix: which of several equally good prefixes was used
 depended on the hash seed

---
 mergekit/scripts/fill_missing_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 69d16dc..8d6d1e3 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -215,7 +215,7 @@ class ParameterNamesUtils:
         assert len(list1) >= len(list2), "params name list1 can't be shorter than list2"
 
         possible_prefixes = {item.split(".")[0] for item in list1 if "." in item}
-        possible_prefixes = [""] + list(possible_prefixes)
+        possible_prefixes = [""] + sorted(possible_prefixes)
 
         prefix_matches = {}
         best_prefix = ""  # Default to no prefix
-- 
2.43.0


From a67b636e8dba78ba1fc79701b02249dd0182a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:02 +0000
Subject: [PATCH 096/147] fix: OLMo 2 merges lost the query and key norms

---
 mergekit/_data/architectures/olmo2.json | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 1360496..75e8223 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -24,6 +24,12 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
-- 
2.43.0


From f088914939ba4fee2f4f409ae9ff435a1f8208b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 097/147] fix: whisper models could not be merged

---
 mergekit/_data/architectures/whisper.json | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/whisper.json b/mergekit/_data/architectures/whisper.json
index 82ac444..059a573 100644
--- a/mergekit/_data/architectures/whisper.json
+++ b/mergekit/_data/architectures/whisper.json
@@ -10,7 +10,7 @@
     ],
     "modules": {
         "decoder": {
-            "weight_prefix": "model.decoder",
+            "weight_prefix": "model.decoder.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
@@ -191,6 +191,27 @@
                 },
                 "num_layers_config_key": "encoder_layers"
             }
+        },
+        "head": {
+            "architecture": {
+                "model_type": "",
+                "architectures": [],
+                "pre_weights": [],
+                "layer_templates": {
+                    "weights": []
+                },
+                "override_num_layers": 0,
+                "post_weights": [
+                    {
+                        "name": "proj_out.weight",
+                        "is_embed": true,
+                        "optional": true,
+                        "tied_names": [
+                            "model.decoder.embed_tokens.weight"
+                        ]
+                    }
+                ]
+            }
         }
     }
 }
-- 
2.43.0


From a71b79a0116b7aac6c048f5e9786be35a915283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 098/147] fix: T5 models without gated activations could not be
 merged

---
 mergekit/_data/architectures/t5.json | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mergekit/_data/architectures/t5.json b/mergekit/_data/architectures/t5.json
index 9ed8a7b..cfea735 100644
--- a/mergekit/_data/architectures/t5.json
+++ b/mergekit/_data/architectures/t5.json
@@ -59,10 +59,16 @@
                             "name": "decoder.block.${layer_index}.layer.1.layer_norm.weight"
                         },
                         {
-                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_0.weight"
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi.weight",
+                            "optional": true
                         },
                         {
-                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_1.weight"
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_0.weight",
+                            "optional": true
+                        },
+                        {
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_1.weight",
+                            "optional": true
                         },
                         {
                             "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wo.weight"
@@ -118,10 +124,16 @@
                             "optional": true
                         },
                         {
-                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_0.weight"
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi.weight",
+                            "optional": true
                         },
                         {
-                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_1.weight"
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_0.weight",
+                            "optional": true
+                        },
+                        {
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_1.weight",
+                            "optional": true
                         },
                         {
                             "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wo.weight"
-- 
2.43.0


From c4f2b467c5750a7c544b033f0b004486360adcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 099/147] fix: only one kind of Falcon model could be merged

---
 mergekit/_data/architectures/falcon.json | 50 +++++++++++++++++++++---
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/mergekit/_data/architectures/falcon.json b/mergekit/_data/architectures/falcon.json
index 648dab0..b9921d6 100644
--- a/mergekit/_data/architectures/falcon.json
+++ b/mergekit/_data/architectures/falcon.json
@@ -18,35 +18,75 @@
         },
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "transformer.word_embeddings.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
     "layer_templates": {
         "weights": [
             {
-                "name": "transformer.h.${layer_index}.ln_attn.bias"
+                "name": "transformer.h.${layer_index}.input_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.input_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.post_attention_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.post_attention_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.ln_attn.bias",
+                "optional": true
             },
             {
-                "name": "transformer.h.${layer_index}.ln_attn.weight"
+                "name": "transformer.h.${layer_index}.ln_attn.weight",
+                "optional": true
             },
             {
-                "name": "transformer.h.${layer_index}.ln_mlp.bias"
+                "name": "transformer.h.${layer_index}.ln_mlp.bias",
+                "optional": true
             },
             {
-                "name": "transformer.h.${layer_index}.ln_mlp.weight"
+                "name": "transformer.h.${layer_index}.ln_mlp.weight",
+                "optional": true
             },
             {
                 "name": "transformer.h.${layer_index}.mlp.dense_4h_to_h.weight"
             },
+            {
+                "name": "transformer.h.${layer_index}.mlp.dense_4h_to_h.bias",
+                "optional": true
+            },
             {
                 "name": "transformer.h.${layer_index}.mlp.dense_h_to_4h.weight"
             },
+            {
+                "name": "transformer.h.${layer_index}.mlp.dense_h_to_4h.bias",
+                "optional": true
+            },
             {
                 "name": "transformer.h.${layer_index}.self_attention.dense.weight"
             },
+            {
+                "name": "transformer.h.${layer_index}.self_attention.dense.bias",
+                "optional": true
+            },
             {
                 "name": "transformer.h.${layer_index}.self_attention.query_key_value.weight"
+            },
+            {
+                "name": "transformer.h.${layer_index}.self_attention.query_key_value.bias",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From be20edfff1c0259ab4816e16cc4583cf21bc19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 100/147] fix: masked BERT models could not be merged, or lost
 part of their head

---
 .../_data/architectures/bert-masked-lm.json   | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index d6430e4..0e55cf7 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -34,14 +34,41 @@
     ],
     "post_weights": [
         {
-            "name": "bert.pooler.dense.weight"
+            "name": "bert.pooler.dense.weight",
+            "optional": true
         },
         {
-            "name": "bert.pooler.dense.bias"
+            "name": "bert.pooler.dense.bias",
+            "optional": true
         },
         {
             "name": "cls.predictions.bias"
         },
+        {
+            "name": "cls.predictions.decoder.bias",
+            "optional": true,
+            "tied_names": [
+                "cls.predictions.bias"
+            ]
+        },
+        {
+            "name": "cls.predictions.transform.dense.weight"
+        },
+        {
+            "name": "cls.predictions.transform.dense.bias"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.weight",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.gamma"
+            ]
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.bias",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.beta"
+            ]
+        },
         {
             "name": "cls.predictions.decoder.weight",
             "optional": true,
-- 
2.43.0


From c06fe85bc040702487de784bafa0b11d9f4f74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 101/147] fix: untied masked RoBERTa models lost a bias

---
 mergekit/_data/architectures/roberta-masked-lm.json | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mergekit/_data/architectures/roberta-masked-lm.json b/mergekit/_data/architectures/roberta-masked-lm.json
index 1aae76a..681616d 100644
--- a/mergekit/_data/architectures/roberta-masked-lm.json
+++ b/mergekit/_data/architectures/roberta-masked-lm.json
@@ -49,6 +49,13 @@
             "tied_names": [
                 "roberta.embeddings.word_embeddings.weight"
             ]
+        },
+        {
+            "name": "lm_head.decoder.bias",
+            "optional": true,
+            "tied_names": [
+                "lm_head.bias"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
-- 
2.43.0


From 0ce42bad99b53def281a12d1950f1ac191c533bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 102/147] fix: bare RoBERTa and DistilBERT models could not be
 merged

---
 mergekit/_data/architectures/distilbert.json | 100 +++++++++++----
 mergekit/_data/architectures/roberta.json    | 122 +++++++++++++++----
 2 files changed, 176 insertions(+), 46 deletions(-)

diff --git a/mergekit/_data/architectures/distilbert.json b/mergekit/_data/architectures/distilbert.json
index bd99716..e585b97 100644
--- a/mergekit/_data/architectures/distilbert.json
+++ b/mergekit/_data/architectures/distilbert.json
@@ -5,21 +5,31 @@
     ],
     "pre_weights": [
         {
-            "name": "distilbert.embeddings.position_embeddings.weight"
+            "name": "embeddings.position_embeddings.weight",
+            "aliases": [
+                "distilbert.embeddings.position_embeddings.weight"
+            ]
         },
         {
-            "name": "distilbert.embeddings.word_embeddings.weight",
-            "is_embed": true
+            "name": "embeddings.word_embeddings.weight",
+            "is_embed": true,
+            "aliases": [
+                "distilbert.embeddings.word_embeddings.weight"
+            ]
         },
         {
-            "name": "distilbert.embeddings.LayerNorm.bias",
+            "name": "embeddings.LayerNorm.bias",
             "aliases": [
+                "embeddings.LayerNorm.beta",
+                "distilbert.embeddings.LayerNorm.bias",
                 "distilbert.embeddings.LayerNorm.beta"
             ]
         },
         {
-            "name": "distilbert.embeddings.LayerNorm.weight",
+            "name": "embeddings.LayerNorm.weight",
             "aliases": [
+                "embeddings.LayerNorm.gamma",
+                "distilbert.embeddings.LayerNorm.weight",
                 "distilbert.embeddings.LayerNorm.gamma"
             ]
         }
@@ -29,52 +39,100 @@
     "layer_templates": {
         "weights": [
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.k_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.k_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.k_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.k_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.k_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.k_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.q_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.q_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.q_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.q_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.q_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.q_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.v_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.v_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.v_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.v_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.v_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.v_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.out_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.out_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.out_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.out_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.out_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.out_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.sa_layer_norm.bias"
+                "name": "transformer.layer.${layer_index}.sa_layer_norm.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.sa_layer_norm.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.sa_layer_norm.weight"
+                "name": "transformer.layer.${layer_index}.sa_layer_norm.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.sa_layer_norm.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin1.weight"
+                "name": "transformer.layer.${layer_index}.ffn.lin1.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin1.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin1.bias"
+                "name": "transformer.layer.${layer_index}.ffn.lin1.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin1.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin2.weight"
+                "name": "transformer.layer.${layer_index}.ffn.lin2.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin2.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin2.bias"
+                "name": "transformer.layer.${layer_index}.ffn.lin2.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin2.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.output_layer_norm.bias"
+                "name": "transformer.layer.${layer_index}.output_layer_norm.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.output_layer_norm.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.output_layer_norm.weight"
+                "name": "transformer.layer.${layer_index}.output_layer_norm.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.output_layer_norm.weight"
+                ]
             }
         ]
     }
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index cab186c..1358149 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -5,84 +5,156 @@
     ],
     "pre_weights": [
         {
-            "name": "roberta.embeddings.position_embeddings.weight"
+            "name": "embeddings.position_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.position_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "embeddings.word_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.word_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.token_type_embeddings.weight"
+            "name": "embeddings.token_type_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.token_type_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.LayerNorm.weight"
+            "name": "embeddings.LayerNorm.weight",
+            "aliases": [
+                "roberta.embeddings.LayerNorm.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.LayerNorm.bias"
+            "name": "embeddings.LayerNorm.bias",
+            "aliases": [
+                "roberta.embeddings.LayerNorm.bias"
+            ]
         },
         {
-            "name": "roberta.embeddings.position_ids",
+            "name": "embeddings.position_ids",
             "optional": true,
-            "force_dtype": "int64"
+            "force_dtype": "int64",
+            "aliases": [
+                "roberta.embeddings.position_ids"
+            ]
         }
     ],
     "post_weights": [
         {
-            "name": "pooler.dense.weight"
+            "name": "pooler.dense.weight",
+            "aliases": [
+                "roberta.pooler.dense.weight"
+            ]
         },
         {
-            "name": "pooler.dense.bias"
+            "name": "pooler.dense.bias",
+            "aliases": [
+                "roberta.pooler.dense.bias"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
     "layer_templates": {
         "weights": [
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.dense.weight"
+                "name": "encoder.layer.${layer_index}.attention.output.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.dense.bias"
+                "name": "encoder.layer.${layer_index}.attention.output.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.weight"
+                "name": "encoder.layer.${layer_index}.attention.output.LayerNorm.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.bias"
+                "name": "encoder.layer.${layer_index}.attention.output.LayerNorm.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.query.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.query.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.query.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.query.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.query.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.query.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.key.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.key.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.key.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.key.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.key.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.key.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.value.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.value.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.value.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.value.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.value.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.value.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.intermediate.dense.weight"
+                "name": "encoder.layer.${layer_index}.intermediate.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.intermediate.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.intermediate.dense.bias"
+                "name": "encoder.layer.${layer_index}.intermediate.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.intermediate.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.dense.weight"
+                "name": "encoder.layer.${layer_index}.output.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.dense.bias"
+                "name": "encoder.layer.${layer_index}.output.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.LayerNorm.weight"
+                "name": "encoder.layer.${layer_index}.output.LayerNorm.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.LayerNorm.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.LayerNorm.bias"
+                "name": "encoder.layer.${layer_index}.output.LayerNorm.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.LayerNorm.bias"
+                ]
             }
         ]
     }
-- 
2.43.0


From 34e886f2cd8f7cba7bc7c75b626cf646ba10c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 103/147] fix: GPT-NeoX models without precomputed buffers
 could not be merged

---
 mergekit/_data/architectures/gpt-neox.json | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/gpt-neox.json b/mergekit/_data/architectures/gpt-neox.json
index e8bf29a..ea61721 100644
--- a/mergekit/_data/architectures/gpt-neox.json
+++ b/mergekit/_data/architectures/gpt-neox.json
@@ -61,13 +61,16 @@
                 "name": "gpt_neox.layers.${layer_index}.post_attention_layernorm.bias"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq"
+                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From dd0ddae65d3189b7840f24c91908ba3925cd612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:47 +0000
Subject: [PATCH 104/147] fix: models without some of the optional parts of
 their architecture could not be merged

---
 mergekit/_data/architectures/cohere.json       |  6 ++++--
 mergekit/_data/architectures/gpt-neox.json     |  6 ++++--
 .../_data/architectures/granite4moehybrid.json |  9 ++++++---
 mergekit/_data/architectures/mamba.json        |  3 ++-
 mergekit/_data/architectures/stablelm2.json    |  6 ++++--
 mergekit/_data/architectures/starcoder2.json   | 18 ++++++++++++------
 6 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index 7b36cab..d69dfd2 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -35,13 +35,15 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
diff --git a/mergekit/_data/architectures/gpt-neox.json b/mergekit/_data/architectures/gpt-neox.json
index ea61721..473486c 100644
--- a/mergekit/_data/architectures/gpt-neox.json
+++ b/mergekit/_data/architectures/gpt-neox.json
@@ -28,13 +28,15 @@
                 "name": "gpt_neox.layers.${layer_index}.attention.dense.weight"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.dense.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.dense.bias",
+                "optional": true
             },
             {
                 "name": "gpt_neox.layers.${layer_index}.attention.query_key_value.weight"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.query_key_value.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.query_key_value.bias",
+                "optional": true
             },
             {
                 "name": "gpt_neox.layers.${layer_index}.input_layernorm.weight"
diff --git a/mergekit/_data/architectures/granite4moehybrid.json b/mergekit/_data/architectures/granite4moehybrid.json
index 1ef6c64..5b14eee 100644
--- a/mergekit/_data/architectures/granite4moehybrid.json
+++ b/mergekit/_data/architectures/granite4moehybrid.json
@@ -35,13 +35,16 @@
                 "name": "model.layers.${layer_index}.shared_mlp.output_linear.weight"
             },
             {
-                "name": "model.layers.${layer_index}.block_sparse_moe.input_linear.weight"
+                "name": "model.layers.${layer_index}.block_sparse_moe.input_linear.weight",
+                "optional": true
             },
             {
-                "name": "model.layers.${layer_index}.block_sparse_moe.router.layer.weight"
+                "name": "model.layers.${layer_index}.block_sparse_moe.router.layer.weight",
+                "optional": true
             },
             {
-                "name": "model.layers.${layer_index}.block_sparse_moe.output_linear.weight"
+                "name": "model.layers.${layer_index}.block_sparse_moe.output_linear.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
diff --git a/mergekit/_data/architectures/mamba.json b/mergekit/_data/architectures/mamba.json
index 1c47353..d7097be 100644
--- a/mergekit/_data/architectures/mamba.json
+++ b/mergekit/_data/architectures/mamba.json
@@ -29,7 +29,8 @@
                 "name": "backbone.layers.${layer_index}.mixer.A_log"
             },
             {
-                "name": "backbone.layers.${layer_index}.mixer.conv1d.bias"
+                "name": "backbone.layers.${layer_index}.mixer.conv1d.bias",
+                "optional": true
             },
             {
                 "name": "backbone.layers.${layer_index}.mixer.conv1d.weight"
diff --git a/mergekit/_data/architectures/stablelm2.json b/mergekit/_data/architectures/stablelm2.json
index d2d2f46..6e8a640 100644
--- a/mergekit/_data/architectures/stablelm2.json
+++ b/mergekit/_data/architectures/stablelm2.json
@@ -40,10 +40,12 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
+                "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
+                "optional": true
             },
             {
-                "name": "model.layers.${layer_index}.post_attention_layernorm.bias"
+                "name": "model.layers.${layer_index}.post_attention_layernorm.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
diff --git a/mergekit/_data/architectures/starcoder2.json b/mergekit/_data/architectures/starcoder2.json
index c226689..90abd3f 100644
--- a/mergekit/_data/architectures/starcoder2.json
+++ b/mergekit/_data/architectures/starcoder2.json
@@ -35,25 +35,29 @@
                 "name": "model.layers.${layer_index}.input_layernorm.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.v_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.o_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
@@ -65,13 +69,15 @@
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
             {
-                "name": "model.layers.${layer_index}.mlp.c_fc.bias"
+                "name": "model.layers.${layer_index}.mlp.c_fc.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.mlp.c_fc.weight"
             },
             {
-                "name": "model.layers.${layer_index}.mlp.c_proj.bias"
+                "name": "model.layers.${layer_index}.mlp.c_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.mlp.c_proj.weight"
-- 
2.43.0


From 8eddfee6c940381d7ce7d4ef6ba5b128b0043a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:47 +0000
Subject: [PATCH 105/147] fix: models with tied embeddings of some
 architectures could not be merged

---
 mergekit/_data/architectures/gpt-neox.json  | 6 +++++-
 mergekit/_data/architectures/phi2.json      | 6 +++++-
 mergekit/_data/architectures/phi3.json      | 6 +++++-
 mergekit/_data/architectures/stablelm2.json | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/mergekit/_data/architectures/gpt-neox.json b/mergekit/_data/architectures/gpt-neox.json
index 473486c..f36e207 100644
--- a/mergekit/_data/architectures/gpt-neox.json
+++ b/mergekit/_data/architectures/gpt-neox.json
@@ -18,7 +18,11 @@
         },
         {
             "name": "embed_out.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "gpt_neox.embed_in.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/phi2.json b/mergekit/_data/architectures/phi2.json
index f509e51..527b06b 100644
--- a/mergekit/_data/architectures/phi2.json
+++ b/mergekit/_data/architectures/phi2.json
@@ -15,7 +15,11 @@
         },
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         },
         {
             "name": "model.final_layernorm.bias"
diff --git a/mergekit/_data/architectures/phi3.json b/mergekit/_data/architectures/phi3.json
index 6c606b8..6dd68b3 100644
--- a/mergekit/_data/architectures/phi3.json
+++ b/mergekit/_data/architectures/phi3.json
@@ -12,7 +12,11 @@
     "post_weights": [
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         },
         {
             "name": "model.norm.weight"
diff --git a/mergekit/_data/architectures/stablelm2.json b/mergekit/_data/architectures/stablelm2.json
index 6e8a640..89b5a39 100644
--- a/mergekit/_data/architectures/stablelm2.json
+++ b/mergekit/_data/architectures/stablelm2.json
@@ -18,7 +18,11 @@
         },
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
-- 
2.43.0


From c88c027696ae4bb2f67449b9e7efc0f655dfa0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:47 +0000
Subject: [PATCH 106/147] fix: output heads stored in only some models were
 lost or not taken from the embeddings

---
 mergekit/_data/architectures/cohere.json  | 5 ++++-
 mergekit/_data/architectures/cohere2.json | 5 ++++-
 mergekit/_data/architectures/gemma.json   | 8 ++++++++
 mergekit/_data/architectures/solar.json   | 2 +-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index d69dfd2..fa3913b 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -16,7 +16,10 @@
         {
             "name": "lm_head.weight",
             "is_embed": true,
-            "optional": true
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/cohere2.json b/mergekit/_data/architectures/cohere2.json
index 755e7db..260284c 100644
--- a/mergekit/_data/architectures/cohere2.json
+++ b/mergekit/_data/architectures/cohere2.json
@@ -16,7 +16,10 @@
         {
             "name": "lm_head.weight",
             "is_embed": true,
-            "optional": true
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/gemma.json b/mergekit/_data/architectures/gemma.json
index 43dbe27..5f5f4a8 100644
--- a/mergekit/_data/architectures/gemma.json
+++ b/mergekit/_data/architectures/gemma.json
@@ -80,6 +80,14 @@
         {
             "name": "model.norm.weight",
             "input_space": "h_${num_layers}"
+        },
+        {
+            "name": "lm_head.weight",
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ]
 }
diff --git a/mergekit/_data/architectures/solar.json b/mergekit/_data/architectures/solar.json
index 78fd599..9ccd212 100644
--- a/mergekit/_data/architectures/solar.json
+++ b/mergekit/_data/architectures/solar.json
@@ -75,7 +75,7 @@
       "is_embed": true,
       "optional": true,
       "tied_names": [
-        "model.lm_head.weight"
+        "model.embed_tokens.weight"
       ]
     }
   ]
-- 
2.43.0


From 48cc038aad6f95b74988c93b9a828654a8d138e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:10 +0000
Subject: [PATCH 107/147] fix: biases and norms that only some configurations
 have were lost

---
 .../_data/architectures/afmoe_partial.json    | 16 +++++++++++
 mergekit/_data/architectures/apertus.json     | 16 +++++++++++
 mergekit/_data/architectures/arcee.json       | 24 ++++++++++++++++
 mergekit/_data/architectures/cohere.json      | 16 +++++++++++
 mergekit/_data/architectures/cohere2.json     | 16 +++++++++++
 mergekit/_data/architectures/gemma.json       | 16 +++++++++++
 mergekit/_data/architectures/gemma2.json      | 16 +++++++++++
 mergekit/_data/architectures/gemma3.json      | 16 +++++++++++
 mergekit/_data/architectures/gemma3vl.json    | 16 +++++++++++
 .../architectures/granite4moehybrid.json      | 24 ++++++++++++++++
 mergekit/_data/architectures/lfm2.json        | 12 ++++++++
 .../llama-sequence-classification.json        | 28 +++++++++++++++++++
 mergekit/_data/architectures/llama.json       | 28 +++++++++++++++++++
 mergekit/_data/architectures/llama4.json      | 16 +++++++++++
 mergekit/_data/architectures/mamba.json       |  8 ++++++
 mergekit/_data/architectures/mistral3.json    |  8 ++++++
 mergekit/_data/architectures/olmo2.json       | 16 +++++++++++
 mergekit/_data/architectures/phi2.json        | 16 +++++++++++
 mergekit/_data/architectures/qwen3.json       | 16 +++++++++++
 mergekit/_data/architectures/qwen3_moe.json   | 16 +++++++++++
 mergekit/_data/architectures/qwen3_vl.json    | 16 +++++++++++
 .../_data/architectures/qwen3_vl_dense.json   | 16 +++++++++++
 22 files changed, 372 insertions(+)

diff --git a/mergekit/_data/architectures/afmoe_partial.json b/mergekit/_data/architectures/afmoe_partial.json
index e8a418b..6066180 100644
--- a/mergekit/_data/architectures/afmoe_partial.json
+++ b/mergekit/_data/architectures/afmoe_partial.json
@@ -72,18 +72,34 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.gate_proj.weight"
             },
diff --git a/mergekit/_data/architectures/apertus.json b/mergekit/_data/architectures/apertus.json
index 4b6d90a..7e74bfb 100644
--- a/mergekit/_data/architectures/apertus.json
+++ b/mergekit/_data/architectures/apertus.json
@@ -55,17 +55,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/arcee.json b/mergekit/_data/architectures/arcee.json
index 2a1088a..5b17e15 100644
--- a/mergekit/_data/architectures/arcee.json
+++ b/mergekit/_data/architectures/arcee.json
@@ -31,23 +31,47 @@
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index fa3913b..47d3fe7 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -44,6 +44,10 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
                 "optional": true
@@ -51,11 +55,23 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/cohere2.json b/mergekit/_data/architectures/cohere2.json
index 260284c..79ce12f 100644
--- a/mergekit/_data/architectures/cohere2.json
+++ b/mergekit/_data/architectures/cohere2.json
@@ -28,15 +28,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
             },
diff --git a/mergekit/_data/architectures/gemma.json b/mergekit/_data/architectures/gemma.json
index 5f5f4a8..0db6653 100644
--- a/mergekit/_data/architectures/gemma.json
+++ b/mergekit/_data/architectures/gemma.json
@@ -22,21 +22,37 @@
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_v_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "post_attn_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "h_a_${layer_index}"
diff --git a/mergekit/_data/architectures/gemma2.json b/mergekit/_data/architectures/gemma2.json
index 5250524..76f4049 100644
--- a/mergekit/_data/architectures/gemma2.json
+++ b/mergekit/_data/architectures/gemma2.json
@@ -18,15 +18,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/gemma3.json b/mergekit/_data/architectures/gemma3.json
index 787fd04..e8ed110 100644
--- a/mergekit/_data/architectures/gemma3.json
+++ b/mergekit/_data/architectures/gemma3.json
@@ -18,21 +18,37 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/gemma3vl.json b/mergekit/_data/architectures/gemma3vl.json
index 27a9f02..b4ab6d1 100644
--- a/mergekit/_data/architectures/gemma3vl.json
+++ b/mergekit/_data/architectures/gemma3vl.json
@@ -32,21 +32,37 @@
                         {
                             "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
                         },
                         {
                             "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
                         },
                         {
                             "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
                         },
diff --git a/mergekit/_data/architectures/granite4moehybrid.json b/mergekit/_data/architectures/granite4moehybrid.json
index 5b14eee..2a50d44 100644
--- a/mergekit/_data/architectures/granite4moehybrid.json
+++ b/mergekit/_data/architectures/granite4moehybrid.json
@@ -53,18 +53,34 @@
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mamba.A_log",
                 "optional": true
@@ -89,6 +105,10 @@
                 "name": "model.layers.${layer_index}.mamba.in_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.mamba.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mamba.norm.weight",
                 "optional": true
@@ -96,6 +116,10 @@
             {
                 "name": "model.layers.${layer_index}.mamba.out_proj.weight",
                 "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.mamba.out_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index ec900e4..51fd877 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -46,14 +46,26 @@
                 "name": "model.layers.${layer_index}.conv.conv.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.conv.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.conv.in_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.conv.out_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
                 "optional": true
diff --git a/mergekit/_data/architectures/llama-sequence-classification.json b/mergekit/_data/architectures/llama-sequence-classification.json
index 7c73d12..9a295e2 100644
--- a/mergekit/_data/architectures/llama-sequence-classification.json
+++ b/mergekit/_data/architectures/llama-sequence-classification.json
@@ -24,6 +24,10 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "running_residual",
@@ -31,18 +35,30 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "attn_v_${layer_index}",
                 "head_split": "output"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "running_residual",
                 "head_split": "input"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "running_residual"
@@ -52,15 +68,27 @@
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.gate_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight",
                 "input_space": "up_${layer_index}",
                 "output_space": "running_residual"
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
             }
         ]
     },
diff --git a/mergekit/_data/architectures/llama.json b/mergekit/_data/architectures/llama.json
index 00918a2..f2dfdf1 100644
--- a/mergekit/_data/architectures/llama.json
+++ b/mergekit/_data/architectures/llama.json
@@ -25,6 +25,10 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "running_residual",
@@ -32,18 +36,30 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "attn_v_${layer_index}",
                 "head_split": "output"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "running_residual",
                 "head_split": "input"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "running_residual"
@@ -53,15 +69,27 @@
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.gate_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight",
                 "input_space": "up_${layer_index}",
                 "output_space": "running_residual"
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
             }
         ]
     },
diff --git a/mergekit/_data/architectures/llama4.json b/mergekit/_data/architectures/llama4.json
index 0edd874..2404b64 100644
--- a/mergekit/_data/architectures/llama4.json
+++ b/mergekit/_data/architectures/llama4.json
@@ -30,15 +30,31 @@
                         {
                             "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
                         },
diff --git a/mergekit/_data/architectures/mamba.json b/mergekit/_data/architectures/mamba.json
index d7097be..2637364 100644
--- a/mergekit/_data/architectures/mamba.json
+++ b/mergekit/_data/architectures/mamba.json
@@ -47,9 +47,17 @@
             {
                 "name": "backbone.layers.${layer_index}.mixer.in_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.out_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.x_proj.weight"
             },
diff --git a/mergekit/_data/architectures/mistral3.json b/mergekit/_data/architectures/mistral3.json
index f39fc7c..f9c2baf 100644
--- a/mergekit/_data/architectures/mistral3.json
+++ b/mergekit/_data/architectures/mistral3.json
@@ -77,9 +77,17 @@
                     {
                         "name": "linear_1.weight"
                     },
+                    {
+                        "name": "linear_1.bias",
+                        "optional": true
+                    },
                     {
                         "name": "linear_2.weight"
                     },
+                    {
+                        "name": "linear_2.bias",
+                        "optional": true
+                    },
                     {
                         "name": "norm.weight"
                     },
diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 75e8223..014f241 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -15,15 +15,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
diff --git a/mergekit/_data/architectures/phi2.json b/mergekit/_data/architectures/phi2.json
index 527b06b..654663f 100644
--- a/mergekit/_data/architectures/phi2.json
+++ b/mergekit/_data/architectures/phi2.json
@@ -61,6 +61,22 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.fc1.bias"
             },
diff --git a/mergekit/_data/architectures/qwen3.json b/mergekit/_data/architectures/qwen3.json
index 917f287..5273bcb 100644
--- a/mergekit/_data/architectures/qwen3.json
+++ b/mergekit/_data/architectures/qwen3.json
@@ -46,17 +46,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/qwen3_moe.json b/mergekit/_data/architectures/qwen3_moe.json
index 1c7d849..37d6db2 100644
--- a/mergekit/_data/architectures/qwen3_moe.json
+++ b/mergekit/_data/architectures/qwen3_moe.json
@@ -46,17 +46,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index a257dbf..6862620 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -60,17 +60,33 @@
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_norm.weight"
                         },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
+                        },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
                         }
                     ]
                 }
diff --git a/mergekit/_data/architectures/qwen3_vl_dense.json b/mergekit/_data/architectures/qwen3_vl_dense.json
index 4e46477..aa5fbba 100644
--- a/mergekit/_data/architectures/qwen3_vl_dense.json
+++ b/mergekit/_data/architectures/qwen3_vl_dense.json
@@ -60,17 +60,33 @@
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_norm.weight"
                         },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
+                        },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
                         }
                     ]
                 }
-- 
2.43.0


From a51a77dd35f78b0433839b2549389444148e8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:10 +0000
Subject: [PATCH 108/147] fix: embeddings that are not, and embeddings that
 were not marked as such

---
 .../_data/architectures/gpt2-sequence-classification.json   | 3 ++-
 mergekit/_data/architectures/lfm2.json                      | 3 +--
 mergekit/_data/architectures/phi-1.json                     | 3 +--
 mergekit/_data/architectures/qwen2_5_vl.json                | 3 +--
 mergekit/_data/architectures/qwen2_vl.json                  | 3 +--
 mergekit/_data/architectures/qwen3_vl.json                  | 6 ++----
 mergekit/_data/architectures/qwen3_vl_dense.json            | 6 ++----
 .../architectures/roberta-sequence-classification.json      | 3 ++-
 .../_data/architectures/roberta-token-classification.json   | 3 ++-
 mergekit/_data/architectures/roberta.json                   | 1 +
 10 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/mergekit/_data/architectures/gpt2-sequence-classification.json b/mergekit/_data/architectures/gpt2-sequence-classification.json
index 54cf31f..2919e47 100644
--- a/mergekit/_data/architectures/gpt2-sequence-classification.json
+++ b/mergekit/_data/architectures/gpt2-sequence-classification.json
@@ -5,7 +5,8 @@
     ],
     "pre_weights": [
         {
-            "name": "transformer.wte.weight"
+            "name": "transformer.wte.weight",
+            "is_embed": true
         },
         {
             "name": "transformer.wpe.weight"
diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index 51fd877..f238c5a 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -9,8 +9,7 @@
             "is_embed": true
         },
         {
-            "name": "model.embedding_norm.weight",
-            "is_embed": true
+            "name": "model.embedding_norm.weight"
         }
 
     ],
diff --git a/mergekit/_data/architectures/phi-1.json b/mergekit/_data/architectures/phi-1.json
index 612bd7d..d12023f 100644
--- a/mergekit/_data/architectures/phi-1.json
+++ b/mergekit/_data/architectures/phi-1.json
@@ -49,8 +49,7 @@
     },
     "post_weights": [
         {
-            "name": "layers.${num_layers}.linear.bias",
-            "is_embed": true
+            "name": "layers.${num_layers}.linear.bias"
         },
         {
             "name": "layers.${num_layers}.linear.weight",
diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index cd3258b..56ff56f 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -117,8 +117,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 7e5ee74..829a098 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -120,8 +120,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index 6862620..05b9d53 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -151,15 +151,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl_dense.json b/mergekit/_data/architectures/qwen3_vl_dense.json
index aa5fbba..36435fa 100644
--- a/mergekit/_data/architectures/qwen3_vl_dense.json
+++ b/mergekit/_data/architectures/qwen3_vl_dense.json
@@ -150,15 +150,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/roberta-sequence-classification.json b/mergekit/_data/architectures/roberta-sequence-classification.json
index 6e137e6..8d1f47e 100644
--- a/mergekit/_data/architectures/roberta-sequence-classification.json
+++ b/mergekit/_data/architectures/roberta-sequence-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta-token-classification.json b/mergekit/_data/architectures/roberta-token-classification.json
index 2b9cae9..1927836 100644
--- a/mergekit/_data/architectures/roberta-token-classification.json
+++ b/mergekit/_data/architectures/roberta-token-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index 1358149..a057e4b 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -12,6 +12,7 @@
         },
         {
             "name": "embeddings.word_embeddings.weight",
+            "is_embed": true,
             "aliases": [
                 "roberta.embeddings.word_embeddings.weight"
             ]
-- 
2.43.0


From e0f7f2d0d9e08ae0108a854cecf7fc63eaa406f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:10 +0000
Subject: [PATCH 109/147] fix: merger weights of Qwen2-VL models were planned
 twice

---
 mergekit/_data/architectures/qwen2_5_vl.json | 29 ++++++++++----------
 mergekit/_data/architectures/qwen2_vl.json   | 29 ++++++++++----------
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index 56ff56f..ab34672 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -84,28 +84,27 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 0,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.bias"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.bias"
                     }
                 ],
                 "post_weights": [],
                 "layer_templates": {
-                    "weights": [
-                        {
-                            "name": "visual.merger.mlp.0.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.0.bias"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.bias"
-                        }
-                    ]
+                    "weights": []
                 }
             }
         },
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 829a098..02a4951 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -84,31 +84,30 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 0,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
                     },
                     {
                         "name": "visual.merger.ln_q.bias"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.bias"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.bias"
                     }
                 ],
                 "post_weights": [],
                 "layer_templates": {
-                    "weights": [
-                        {
-                            "name": "visual.merger.mlp.0.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.0.bias"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.bias"
-                        }
-                    ]
+                    "weights": []
                 }
             }
         },
-- 
2.43.0


From f97882b973c68cdff074226c902a129f876883e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:10 +0000
Subject: [PATCH 110/147] fix: Qwen2-VL models could not be merged

---
 mergekit/_data/architectures/qwen2_vl.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 02a4951..c8fdfdc 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -17,7 +17,7 @@
                     "Qwen2ForCausalLM"
                 ],
                 "model_type": "qwen2",
-                "num_layers_config_key": "num_hidden_layers",
+                "num_layers_config_key": "text_config.num_hidden_layers",
                 "pre_weights": [
                     {
                         "name": "model.embed_tokens.weight",
-- 
2.43.0


From b482343d96eb99adaaa41a941bbc99cc71f42e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:44 +0000
Subject: [PATCH 111/147] fix: Gemma 3 vision towers saved under their newer
 names could not be merged

---
 mergekit/_data/architectures/gemma3vl.json | 107 ++++++++++++++++-----
 1 file changed, 85 insertions(+), 22 deletions(-)

diff --git a/mergekit/_data/architectures/gemma3vl.json b/mergekit/_data/architectures/gemma3vl.json
index b4ab6d1..79df1a2 100644
--- a/mergekit/_data/architectures/gemma3vl.json
+++ b/mergekit/_data/architectures/gemma3vl.json
@@ -119,78 +119,141 @@
             }
         },
         "vision_tower": {
-            "weight_prefix": "vision_tower.vision_model.",
+            "weight_prefix": "vision_tower.",
             "architecture": {
                 "model_type": "siglip_vision_model",
                 "architectures": [],
                 "pre_weights": [
                     {
-                        "name": "embeddings.patch_embedding.bias"
+                        "name": "vision_model.embeddings.patch_embedding.bias",
+                        "aliases": [
+                            "embeddings.patch_embedding.bias"
+                        ]
                     },
                     {
-                        "name": "embeddings.patch_embedding.weight"
+                        "name": "vision_model.embeddings.patch_embedding.weight",
+                        "aliases": [
+                            "embeddings.patch_embedding.weight"
+                        ]
                     },
                     {
-                        "name": "embeddings.position_embedding.weight"
+                        "name": "vision_model.embeddings.position_embedding.weight",
+                        "aliases": [
+                            "embeddings.position_embedding.weight"
+                        ]
                     }
                 ],
                 "post_weights": [
                     {
-                        "name": "post_layernorm.bias"
+                        "name": "vision_model.post_layernorm.bias",
+                        "aliases": [
+                            "post_layernorm.bias"
+                        ]
                     },
                     {
-                        "name": "post_layernorm.weight"
+                        "name": "vision_model.post_layernorm.weight",
+                        "aliases": [
+                            "post_layernorm.weight"
+                        ]
                     }
                 ],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm1.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm1.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm1.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm1.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm1.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm1.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm2.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm2.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm2.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm2.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm2.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm2.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc1.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc1.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc1.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc1.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc1.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc1.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc2.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc2.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc2.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc2.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc2.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc2.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.k_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.k_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.k_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.k_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.k_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.k_proj.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.out_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.out_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.out_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.out_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.out_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.out_proj.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.q_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.q_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.q_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.q_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.q_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.q_proj.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.v_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.v_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.v_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.v_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.v_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.v_proj.weight"
+                            ]
                         }
                     ]
                 },
-- 
2.43.0


From 1e125d05bb64b0defe95f77d6baca1f94bb812a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 112/147] fix: Qwen3 MoE models with dense layers could not be
 merged

---
 mergekit/architecture/__init__.py |  9 ++++++++
 mergekit/architecture/moe_defs.py | 36 +++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/mergekit/architecture/__init__.py b/mergekit/architecture/__init__.py
index 2aa1ee0..03e3be9 100644
--- a/mergekit/architecture/__init__.py
+++ b/mergekit/architecture/__init__.py
@@ -19,6 +19,7 @@ from mergekit.architecture.json_definitions import NAME_TO_ARCH
 from mergekit.architecture.moe_defs import (
     AfmoeModuleArchitecture,
     Glm4MoeModuleArchitecture,
+    Qwen3MoeModuleArchitecture,
 )
 from mergekit.options import MergeOptions
 
@@ -49,6 +50,14 @@ def arch_info_for_config(config: PretrainedConfig) -> Optional[ModelArchitecture
             architectures=[arch_name],
             model_type="glm4_moe",
         )
+    elif arch_name == Qwen3MoeModuleArchitecture.ARCHITECTURE_NAME:
+        return ModelArchitecture(
+            modules={
+                "default": ModuleDefinition(architecture=Qwen3MoeModuleArchitecture())
+            },
+            architectures=[arch_name],
+            model_type="qwen3_moe",
+        )
     elif arch_name in NAME_TO_ARCH:
         candidates = list(NAME_TO_ARCH[arch_name])
         if len(candidates) == 1:
diff --git a/mergekit/architecture/moe_defs.py b/mergekit/architecture/moe_defs.py
index c344355..3d4d2b6 100644
--- a/mergekit/architecture/moe_defs.py
+++ b/mergekit/architecture/moe_defs.py
@@ -105,3 +105,39 @@ class Glm4MoeModuleArchitecture(ModuleArchitecture, BaseModel):
                     continue
                 res.append(weight_info)
             return res
+
+
+QWEN3_MOE_INFO = NAME_TO_ARCH["Qwen3MoeForCausalLM"][0]
+QWEN3_MOE_MODULE_ARCH = QWEN3_MOE_INFO.modules["default"].architecture
+
+
+class Qwen3MoeModuleArchitecture(ModuleArchitecture, BaseModel):
+    ARCHITECTURE_NAME: ClassVar[str] = "Qwen3MoeForCausalLM"
+
+    def name(self) -> str:
+        return "qwen3_moe"
+
+    def pre_weights(self, config: PretrainedConfig) -> List[WeightInfo]:
+        return QWEN3_MOE_MODULE_ARCH.pre_weights(config)
+
+    def post_weights(self, config: PretrainedConfig) -> List[WeightInfo]:
+        return QWEN3_MOE_MODULE_ARCH.post_weights(config)
+
+    def num_layers_config_key(self) -> str:
+        return QWEN3_MOE_MODULE_ARCH.num_layers_config_key()
+
+    def layer_weights(
+        self, index: int, config: PretrainedConfig
+    ) -> Optional[List[WeightInfo]]:
+        weights = QWEN3_MOE_MODULE_ARCH.layer_weights(index, config)
+        sparse_step = getattr(config, "decoder_sparse_step", 1)
+        if (
+            index not in (getattr(config, "mlp_only_layers", None) or [])
+            and (index + 1) % sparse_step == 0
+        ):
+            return weights
+        prefix = f"model.layers.{index}.mlp"
+        res = [w for w in weights if not w.name.startswith(prefix + ".")]
+        for param in ("gate_proj", "up_proj", "down_proj"):
+            res.append(WeightInfo(name=f"{prefix}.{param}.weight"))
+        return res
-- 
2.43.0


From 199979a1766664f256ed8f37322ec7347a536ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 113/147] fix: StableLM merges lost per-head query and key
 norms

---
 mergekit/architecture/__init__.py |  9 ++++++
 mergekit/architecture/stablelm.py | 50 +++++++++++++++++++++++++++++++
 2 files changed, 59 insertions(+)
 create mode 100644 mergekit/architecture/stablelm.py

diff --git a/mergekit/architecture/__init__.py b/mergekit/architecture/__init__.py
index 03e3be9..28f3c99 100644
--- a/mergekit/architecture/__init__.py
+++ b/mergekit/architecture/__init__.py
@@ -21,6 +21,7 @@ from mergekit.architecture.moe_defs import (
     Glm4MoeModuleArchitecture,
     Qwen3MoeModuleArchitecture,
 )
+from mergekit.architecture.stablelm import StableLmModuleArchitecture
 from mergekit.options import MergeOptions
 
 if TYPE_CHECKING:
@@ -58,6 +59,14 @@ def arch_info_for_config(config: PretrainedConfig) -> Optional[ModelArchitecture
             architectures=[arch_name],
             model_type="qwen3_moe",
         )
+    elif arch_name == StableLmModuleArchitecture.ARCHITECTURE_NAME:
+        return ModelArchitecture(
+            modules={
+                "default": ModuleDefinition(architecture=StableLmModuleArchitecture())
+            },
+            architectures=[arch_name],
+            model_type="stablelm",
+        )
     elif arch_name in NAME_TO_ARCH:
         candidates = list(NAME_TO_ARCH[arch_name])
         if len(candidates) == 1:
diff --git a/mergekit/architecture/stablelm.py b/mergekit/architecture/stablelm.py
new file mode 100644
index 0000000..7e6ddb5
--- /dev/null
+++ b/mergekit/architecture/stablelm.py
@@ -0,0 +1,50 @@
+# Copyright (C) 2026 Arcee AI
+# SPDX-License-Identifier: LGPL-3.0-only
+
+from typing import ClassVar, List, Optional
+
+from pydantic import BaseModel
+from transformers import PretrainedConfig
+
+from mergekit.architecture.base import (
+    ModuleArchitecture,
+    WeightInfo,
+)
+from mergekit.architecture.json_definitions import NAME_TO_ARCH
+
+STABLELM_INFO = NAME_TO_ARCH["StableLmForCausalLM"][0]
+STABLELM_MODULE_ARCH = STABLELM_INFO.modules["default"].architecture
+
+
+class StableLmModuleArchitecture(ModuleArchitecture, BaseModel):
+    """StableLM with one query/key norm per attention head."""
+
+    ARCHITECTURE_NAME: ClassVar[str] = "StableLmForCausalLM"
+
+    def name(self) -> str:
+        return "stablelm"
+
+    def pre_weights(self, config: PretrainedConfig) -> List[WeightInfo]:
+        return STABLELM_MODULE_ARCH.pre_weights(config)
+
+    def post_weights(self, config: PretrainedConfig) -> List[WeightInfo]:
+        return STABLELM_MODULE_ARCH.post_weights(config)
+
+    def num_layers_config_key(self) -> str:
+        return STABLELM_MODULE_ARCH.num_layers_config_key()
+
+    def layer_weights(
+        self, index: int, config: PretrainedConfig
+    ) -> Optional[List[WeightInfo]]:
+        res = STABLELM_MODULE_ARCH.layer_weights(index, config)
+        if getattr(config, "qk_layernorm", False):
+            prefix = f"model.layers.{index}.self_attn"
+            for name, heads in (
+                ("q_layernorm", config.num_attention_heads),
+                ("k_layernorm", config.num_key_value_heads),
+            ):
+                for head in range(heads):
+                    res.append(
+                        WeightInfo(name=f"{prefix}.{name}.norms.{head}.weight")
+                    )
+        return res
-- 
2.43.0


From dd2a0e24fd2e660b8d48d70bc292778d3a636adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 114/147] fix: experts stored separately in only some layers
 were lost

---
 mergekit/plan.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 4b502e6..b91eb2a 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -12,6 +12,7 @@ from mergekit.architecture import (
     WeightInfo,
 )
 from mergekit.architecture.base import ConfiguredModelArchitecture
+from mergekit.architecture.conversion import can_convert_checkpoint_keys
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import (
     ConfigReader,
@@ -167,9 +168,14 @@ class MergePlanner:
             any_weight = False
             for model, w_in in zip(models, weights_in):
                 index = LoaderCache().get(model).index
-                if any(
-                    name in index.tensor_paths
-                    for name in [w_in.name] + list(w_in.aliases or [])
+                names = [w_in.name] + list(w_in.aliases or [])
+                if any(name in index.tensor_paths for name in names) or any(
+                    can_convert_checkpoint_keys(
+                        model.config(trust_remote_code=self.options.trust_remote_code),
+                        set(index.tensor_paths),
+                        name,
+                    )
+                    for name in names
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From cc1904d0893e6ca42f04af2fe1a2c3e637e6bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 115/147] fix: checkpoint renamings of submodels were not
 applied, losing the language models of vision models

---
 mergekit/architecture/auto.py       | 23 +++++------
 mergekit/architecture/conversion.py | 60 ++++++++++++++++++++++-------
 mergekit/io/tasks.py                |  6 +--
 3 files changed, 60 insertions(+), 29 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index e96a34c..6b1489f 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -7,6 +7,7 @@ from collections import defaultdict
 from typing import List, Optional, Tuple
 
 import torch
+from transformers import PretrainedConfig
 from transformers.initialization import no_init_weights
 
 from mergekit.architecture.base import (
@@ -117,13 +118,13 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
 def _target_present_in_all_models(
     target_name: str,
     model_tensor_names: dict[ModelReference, set[str]],
-    model_types: dict[ModelReference, str],
+    model_configs: dict[ModelReference, PretrainedConfig],
     use_transformers_layout: bool,
 ) -> bool:
     if use_transformers_layout:
         return all(
             can_convert_checkpoint_keys(
-                model_types.get(model),
+                model_configs.get(model),
                 model_tensor_names[model],
                 target_name,
             )
@@ -136,28 +137,28 @@ def _template_present_in_all_models(
     full_name_template: str,
     num_layers: Optional[int],
     model_tensor_names: dict[ModelReference, set[str]],
-    model_types: dict[ModelReference, str],
+    model_configs: dict[ModelReference, PretrainedConfig],
     use_transformers_layout: bool,
 ) -> bool:
     if "${layer_index}" not in full_name_template:
         return _target_present_in_all_models(
             full_name_template,
             model_tensor_names,
-            model_types,
+            model_configs,
             use_transformers_layout,
         )
     if num_layers is None:
         return _target_present_in_all_models(
             full_name_template.replace("${layer_index}", "0"),
             model_tensor_names,
-            model_types,
+            model_configs,
             use_transformers_layout,
         )
     return all(
         _target_present_in_all_models(
             full_name_template.replace("${layer_index}", str(layer_idx)),
             model_tensor_names,
-            model_types,
+            model_configs,
             use_transformers_layout,
         )
         for layer_idx in range(num_layers)
@@ -186,8 +187,8 @@ def infer_architecture_info(
     ) = get_transformers_info(base_model, options)
     if transformer_tensor_names:
         all_tensor_names = set(transformer_tensor_names)
-        model_types = {
-            model: model.config(trust_remote_code=options.trust_remote_code).model_type
+        model_configs = {
+            model: model.config(trust_remote_code=options.trust_remote_code)
             for model in model_tensor_names
         }
         # tensors that the Transformers model neither has nor converts from
@@ -196,12 +197,12 @@ def infer_architecture_info(
             all_tensor_names.update(
                 name
                 for name in names - all_tensor_names
-                if not is_converted_checkpoint_key(model_types[model], name)
+                if not is_converted_checkpoint_key(model_configs[model], name)
                 and not any(re.search(pat, name) for pat in ignore_on_load or ())
             )
     else:
         all_tensor_names = raw_tensor_names
-        model_types = {}
+        model_configs = {}
 
     module_prefixes = set()
     module_layer_counts = defaultdict(int)
@@ -262,7 +263,7 @@ def infer_architecture_info(
             full_name,
             num_layers,
             model_tensor_names,
-            model_types,
+            model_configs,
             use_transformers_layout=bool(transformer_tensor_names),
         )
         optional = (not present_in_all) or (
diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index 582904f..828f829 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -1,15 +1,54 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
+import logging
 import re
 from collections.abc import Callable, Mapping
+from copy import deepcopy
 from typing import Optional, Union
 
 import torch
-from transformers.conversion_mapping import get_checkpoint_conversion_mapping
+import transformers
+from transformers.conversion_mapping import (
+    get_checkpoint_conversion_mapping,
+    get_model_conversion_mapping,
+)
 from transformers.core_model_loading import WeightRenaming
+from transformers.initialization import no_init_weights
+
+from mergekit.common import get_auto_cls
+
+LOG = logging.getLogger(__name__)
 
 TensorSource = Union[torch.Tensor, Callable[[], torch.Tensor]]
+# a model type, or the configuration of a model
+ModelKind = Union[str, transformers.PretrainedConfig]
+
+_TRANSFORMS_CACHE: dict[str, Optional[list]] = {}
+
+
+def _checkpoint_transforms(model: Optional[ModelKind]) -> Optional[list]:
+    """Conversions Transformers applies to the checkpoints of a model, in order."""
+    if not model:
+        return None
+    if isinstance(model, str):
+        return get_checkpoint_conversion_mapping(model)
+
+    key = model.to_json_string(use_diff=False)
+    if key not in _TRANSFORMS_CACHE:
+        try:
+            # those of the model's class and of its submodels are only found
+            # through an instance
+            with torch.device("meta"), no_init_weights():
+                instance = get_auto_cls(model.architectures[0]).from_config(
+                    model, trust_remote_code=False
+                )
+            transforms = get_model_conversion_mapping(instance, add_legacy=False)
+        except Exception as e:
+            LOG.debug("Unable to instantiate %s", model.model_type, exc_info=e)
+            transforms = get_checkpoint_conversion_mapping(model.model_type)
+        _TRANSFORMS_CACHE[key] = transforms
+    return deepcopy(_TRANSFORMS_CACHE[key])
 
 
 class _TransformMatch:
@@ -72,7 +111,7 @@ def _has_complete_wildcard_group(wildcard_values: set[tuple[str, ...]]) -> bool:
 
 
 def convert_checkpoint_tensors(
-    model_type: Optional[str],
+    model: Optional[ModelKind],
     source_tensors: Mapping[str, TensorSource],
     target_key: str,
 ) -> Optional[torch.Tensor]:
@@ -81,10 +120,7 @@ def convert_checkpoint_tensors(
     Transformers v5 owns the conversion registry. This helper keeps mergekit's
     tensor loading code independent from the registry's stateful loader protocol.
     """
-    if not model_type:
-        return None
-
-    transforms = get_checkpoint_conversion_mapping(model_type)
+    transforms = _checkpoint_transforms(model)
     if not transforms:
         return None
 
@@ -126,17 +162,15 @@ def convert_checkpoint_tensors(
 
 
 def can_convert_checkpoint_keys(
-    model_type: Optional[str],
+    model: Optional[ModelKind],
     source_keys: set[str],
     target_key: str,
 ) -> bool:
     """Return whether source checkpoint keys can produce a target model key."""
     if target_key in source_keys:
         return True
-    if not model_type:
-        return False
 
-    transforms = get_checkpoint_conversion_mapping(model_type)
+    transforms = _checkpoint_transforms(model)
     if not transforms:
         return False
 
@@ -185,11 +219,9 @@ def can_convert_checkpoint_keys(
     return False
 
 
-def is_converted_checkpoint_key(model_type: Optional[str], source_key: str) -> bool:
+def is_converted_checkpoint_key(model: Optional[ModelKind], source_key: str) -> bool:
     """Return whether Transformers renames or converts this checkpoint key."""
-    if not model_type:
-        return False
     return any(
         transform.rename_source_key(source_key)[1] is not None
-        for transform in get_checkpoint_conversion_mapping(model_type) or []
+        for transform in _checkpoint_transforms(model) or []
     )
diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index e7098fd..c1a711e 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -96,15 +96,13 @@ class LoadTensor(Task[Optional[torch.Tensor]]):
     def _load_converted_tensor(
         self, loader: LazyTensorLoader
     ) -> Optional[torch.Tensor]:
-        model_type = self.model.config(
-            trust_remote_code=LoaderCache().trust_remote_code
-        ).model_type
+        config = self.model.config(trust_remote_code=LoaderCache().trust_remote_code)
         source_tensors = {
             key: (lambda key=key: loader.get_tensor(key, device=self.device or "cpu"))
             for key in loader.index.tensor_paths
         }
         for target in [self.tensor] + list(self.aliases or []):
-            tensor = convert_checkpoint_tensors(model_type, source_tensors, target)
+            tensor = convert_checkpoint_tensors(config, source_tensors, target)
             if tensor is not None:
                 return tensor.to(self.device or "cpu")
         return None
-- 
2.43.0


From 8870042e3efc00ff976900399c013275b1fbf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:28 +0000
Subject: [PATCH 116/147] fix: models without a single vocabulary could not be
 merged without a definition

---
 mergekit/architecture/auto.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 6b1489f..9cc0728 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -101,13 +101,16 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
         ignore_on_save = set(ignore_on_save)
 
     embed_names = set()
-    _embed_out = model_obj.get_output_embeddings()
-    _embed_in = model_obj.get_input_embeddings()
+    embed_modules = []
+    for getter in (model_obj.get_output_embeddings, model_obj.get_input_embeddings):
+        try:
+            embed_modules.append(getter())
+        except NotImplementedError:
+            # models without a single vocabulary, such as CLIP
+            pass
     for name, module in model_obj.named_modules():
-        if (
-            isinstance(module, torch.nn.Embedding)
-            or module == _embed_out
-            or module == _embed_in
+        if isinstance(module, torch.nn.Embedding) or any(
+            module is embed for embed in embed_modules
         ):
             embed_names.add(name + ".weight")
     tensor_names = list(model_obj.state_dict().keys())
-- 
2.43.0


From 6509efe74bffedef33f63f0f4b7676f9d40dfa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 117/147] fix: tables of positions were taken for embeddings of
 tokens in inferred architectures

---
 mergekit/architecture/auto.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 9cc0728..f297cad 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -108,9 +108,12 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
         except NotImplementedError:
             # models without a single vocabulary, such as CLIP
             pass
+    vocab_size = getattr(model_obj.config.get_text_config(), "vocab_size", None)
     for name, module in model_obj.named_modules():
-        if isinstance(module, torch.nn.Embedding) or any(
-            module is embed for embed in embed_modules
+        # other embeddings, like those of positions, have no rows for tokens
+        if any(module is embed for embed in embed_modules) or (
+            isinstance(module, torch.nn.Embedding)
+            and module.num_embeddings == vocab_size
         ):
             embed_names.add(name + ".weight")
     tensor_names = list(model_obj.state_dict().keys())
-- 
2.43.0


From c744285cd4c4233d440d81cec6fbbd1f25798fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 118/147] fix: AFMoE checkpoints with fused experts lost them

---
 mergekit/architecture/moe_defs.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mergekit/architecture/moe_defs.py b/mergekit/architecture/moe_defs.py
index 3d4d2b6..63b5d7e 100644
--- a/mergekit/architecture/moe_defs.py
+++ b/mergekit/architecture/moe_defs.py
@@ -41,14 +41,11 @@ class AfmoeModuleArchitecture(ModuleArchitecture, BaseModel):
     ) -> Optional[List[WeightInfo]]:
         res = AFMOE_PARTIAL_MODULE_ARCH.layer_weights(index, config) or []
         prefix = f"model.layers.{index}"
-        for expert_idx in range(self.num_experts):
-            for param in ("up_proj", "gate_proj", "down_proj"):
-                res.append(
-                    WeightInfo(
-                        name=prefix + f".mlp.experts.{expert_idx}.{param}.weight",
-                        optional=True,
-                    )
-                )
+        for param in ("gate_up_proj", "down_proj"):
+            # not in dense layers
+            res.append(
+                WeightInfo(name=prefix + f".mlp.experts.{param}", optional=True)
+            )
         return res
 
 
-- 
2.43.0


From ae4b86a6afaba34a458cc1bef791312e32805074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 119/147] fix: phi-1 layers were taken to be numbered from 0

---
 mergekit/_data/architectures/phi-1.json | 31 +++++++++++++------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/mergekit/_data/architectures/phi-1.json b/mergekit/_data/architectures/phi-1.json
index d12023f..ddee29b 100644
--- a/mergekit/_data/architectures/phi-1.json
+++ b/mergekit/_data/architectures/phi-1.json
@@ -13,53 +13,54 @@
     "layer_templates": {
         "weights": [
             {
-                "name": "layers.${layer_index}.ln.bias"
+                "name": "layers.${layer_index+1}.ln.bias"
             },
             {
-                "name": "layers.${layer_index}.ln.weight"
+                "name": "layers.${layer_index+1}.ln.weight"
             },
             {
-                "name": "layers.${layer_index}.mixer.Wqkv.bias"
+                "name": "layers.${layer_index+1}.mixer.Wqkv.bias"
             },
             {
-                "name": "layers.${layer_index}.mixer.Wqkv.weight"
+                "name": "layers.${layer_index+1}.mixer.Wqkv.weight"
             },
             {
-                "name": "layers.${layer_index}.mixer.out_proj.bias"
+                "name": "layers.${layer_index+1}.mixer.out_proj.bias"
             },
             {
-                "name": "layers.${layer_index}.mixer.out_proj.weight"
+                "name": "layers.${layer_index+1}.mixer.out_proj.weight"
             },
             {
-                "name": "layers.${layer_index}.mixer.rotary_emb.inv_freq"
+                "name": "layers.${layer_index+1}.mixer.rotary_emb.inv_freq",
+                "optional": true
             },
             {
-                "name": "layers.${layer_index}.mlp.fc1.bias"
+                "name": "layers.${layer_index+1}.mlp.fc1.bias"
             },
             {
-                "name": "layers.${layer_index}.mlp.fc1.weight"
+                "name": "layers.${layer_index+1}.mlp.fc1.weight"
             },
             {
-                "name": "layers.${layer_index}.mlp.fc2.bias"
+                "name": "layers.${layer_index+1}.mlp.fc2.bias"
             },
             {
-                "name": "layers.${layer_index}.mlp.fc2.weight"
+                "name": "layers.${layer_index+1}.mlp.fc2.weight"
             }
         ]
     },
     "post_weights": [
         {
-            "name": "layers.${num_layers}.linear.bias"
+            "name": "layers.${num_layers+1}.linear.bias"
         },
         {
-            "name": "layers.${num_layers}.linear.weight",
+            "name": "layers.${num_layers+1}.linear.weight",
             "is_embed": true
         },
         {
-            "name": "layers.${num_layers}.ln.bias"
+            "name": "layers.${num_layers+1}.ln.bias"
         },
         {
-            "name": "layers.${num_layers}.ln.weight"
+            "name": "layers.${num_layers+1}.ln.weight"
         }
     ]
 }
-- 
2.43.0


From 79d04ecbd23d542442c093dc334a9161eeaee7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 120/147] fix: StableLM Epoch merges lost the bias of the final
 norm and attention biases

---
 mergekit/_data/architectures/stablelm.json | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mergekit/_data/architectures/stablelm.json b/mergekit/_data/architectures/stablelm.json
index 827d523..d128d16 100644
--- a/mergekit/_data/architectures/stablelm.json
+++ b/mergekit/_data/architectures/stablelm.json
@@ -26,16 +26,31 @@
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "output_space": "attn_qk_${layer_index}",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "output_space": "attn_qk_${layer_index}",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_v_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "output_space": "attn_v_${layer_index}",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
@@ -89,6 +104,11 @@
             "name": "model.norm.weight",
             "input_space": "h_${num_layers}"
         },
+        {
+            "name": "model.norm.bias",
+            "input_space": "h_${num_layers}",
+            "optional": true
+        },
         {
             "name": "lm_head.weight",
             "input_space": "h_${num_layers}",
-- 
2.43.0


From c8df2663bb7583d34a0d37d436f094991197f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:53 +0000
Subject: [PATCH 121/147] fix: vision-language models saved under their newer
 names could not be merged

---
 mergekit/_data/architectures/gemma3vl.json   | 252 +++++++++++++------
 mergekit/_data/architectures/mistral3.json   | 157 +++++++++---
 mergekit/_data/architectures/qwen2_5_vl.json | 168 ++++++++++---
 mergekit/_data/architectures/qwen2_vl.json   | 173 ++++++++++---
 4 files changed, 567 insertions(+), 183 deletions(-)

diff --git a/mergekit/_data/architectures/gemma3vl.json b/mergekit/_data/architectures/gemma3vl.json
index 79df1a2..884ae29 100644
--- a/mergekit/_data/architectures/gemma3vl.json
+++ b/mergekit/_data/architectures/gemma3vl.json
@@ -11,7 +11,6 @@
     "vocab_size_config_key": "text_config.vocab_size",
     "modules": {
         "text_decoder": {
-            "weight_prefix": "language_model.",
             "architecture": {
                 "model_type": "gemma3_text",
                 "architectures": [
@@ -19,96 +18,162 @@
                 ],
                 "pre_weights": [
                     {
-                        "name": "model.embed_tokens.weight",
-                        "is_embed": true
+                        "name": "language_model.model.embed_tokens.weight",
+                        "is_embed": true,
+                        "aliases": [
+                            "model.language_model.embed_tokens.weight"
+                        ]
                     }
                 ],
                 "num_layers_config_key": "text_config.num_hidden_layers",
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "model.layers.${layer_index}.input_layernorm.weight"
+                            "name": "language_model.model.layers.${layer_index}.input_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.input_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.q_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
-                            "optional": true
+                            "name": "language_model.model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true,
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.q_norm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_norm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.k_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
-                            "optional": true
+                            "name": "language_model.model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true,
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.k_norm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_norm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.v_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
-                            "optional": true
+                            "name": "language_model.model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true,
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.v_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.o_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
-                            "optional": true
+                            "name": "language_model.model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true,
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.o_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
+                            "name": "language_model.model.layers.${layer_index}.post_attention_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.post_attention_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.pre_feedforward_layernorm.weight"
+                            "name": "language_model.model.layers.${layer_index}.pre_feedforward_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.pre_feedforward_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.up_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.mlp.up_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.up_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.mlp.gate_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.gate_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.down_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.mlp.down_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.down_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.post_feedforward_layernorm.weight"
+                            "name": "language_model.model.layers.${layer_index}.post_feedforward_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.post_feedforward_layernorm.weight"
+                            ]
                         }
                     ]
                 },
                 "post_weights": [
                     {
-                        "name": "model.norm.weight"
+                        "name": "language_model.model.norm.weight",
+                        "aliases": [
+                            "model.language_model.norm.weight"
+                        ]
                     },
                     {
-                        "name": "lm_head.weight",
+                        "name": "language_model.lm_head.weight",
                         "is_embed": true,
                         "optional": true,
                         "tied_names": [
-                            "model.embed_tokens.weight"
+                            "language_model.model.embed_tokens.weight",
+                            "model.language_model.embed_tokens.weight"
+                        ],
+                        "aliases": [
+                            "lm_head.weight"
                         ]
                     }
                 ]
             }
         },
         "multi_modal_projector": {
-            "weight_prefix": "multi_modal_projector.",
             "architecture": {
                 "model_type": "gemma3_mmproj",
                 "architectures": [],
                 "pre_weights": [
                     {
-                        "name": "mm_input_projection_weight"
+                        "name": "multi_modal_projector.mm_input_projection_weight",
+                        "aliases": [
+                            "model.multi_modal_projector.mm_input_projection_weight"
+                        ]
                     },
                     {
-                        "name": "mm_soft_emb_norm.weight"
+                        "name": "multi_modal_projector.mm_soft_emb_norm.weight",
+                        "aliases": [
+                            "model.multi_modal_projector.mm_soft_emb_norm.weight"
+                        ]
                     }
                 ],
                 "post_weights": [],
@@ -119,140 +184,181 @@
             }
         },
         "vision_tower": {
-            "weight_prefix": "vision_tower.",
             "architecture": {
                 "model_type": "siglip_vision_model",
                 "architectures": [],
                 "pre_weights": [
                     {
-                        "name": "vision_model.embeddings.patch_embedding.bias",
+                        "name": "vision_tower.vision_model.embeddings.patch_embedding.bias",
                         "aliases": [
-                            "embeddings.patch_embedding.bias"
+                            "vision_tower.embeddings.patch_embedding.bias",
+                            "model.vision_tower.vision_model.embeddings.patch_embedding.bias",
+                            "model.vision_tower.embeddings.patch_embedding.bias"
                         ]
                     },
                     {
-                        "name": "vision_model.embeddings.patch_embedding.weight",
+                        "name": "vision_tower.vision_model.embeddings.patch_embedding.weight",
                         "aliases": [
-                            "embeddings.patch_embedding.weight"
+                            "vision_tower.embeddings.patch_embedding.weight",
+                            "model.vision_tower.vision_model.embeddings.patch_embedding.weight",
+                            "model.vision_tower.embeddings.patch_embedding.weight"
                         ]
                     },
                     {
-                        "name": "vision_model.embeddings.position_embedding.weight",
+                        "name": "vision_tower.vision_model.embeddings.position_embedding.weight",
                         "aliases": [
-                            "embeddings.position_embedding.weight"
+                            "vision_tower.embeddings.position_embedding.weight",
+                            "model.vision_tower.vision_model.embeddings.position_embedding.weight",
+                            "model.vision_tower.embeddings.position_embedding.weight"
                         ]
                     }
                 ],
                 "post_weights": [
                     {
-                        "name": "vision_model.post_layernorm.bias",
+                        "name": "vision_tower.vision_model.post_layernorm.bias",
                         "aliases": [
-                            "post_layernorm.bias"
+                            "vision_tower.post_layernorm.bias",
+                            "model.vision_tower.vision_model.post_layernorm.bias",
+                            "model.vision_tower.post_layernorm.bias"
                         ]
                     },
                     {
-                        "name": "vision_model.post_layernorm.weight",
+                        "name": "vision_tower.vision_model.post_layernorm.weight",
                         "aliases": [
-                            "post_layernorm.weight"
+                            "vision_tower.post_layernorm.weight",
+                            "model.vision_tower.vision_model.post_layernorm.weight",
+                            "model.vision_tower.post_layernorm.weight"
                         ]
                     }
                 ],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm1.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm1.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.layer_norm1.bias"
+                                "vision_tower.encoder.layers.${layer_index}.layer_norm1.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm1.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.layer_norm1.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm1.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm1.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.layer_norm1.weight"
+                                "vision_tower.encoder.layers.${layer_index}.layer_norm1.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm1.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.layer_norm1.weight"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm2.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm2.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.layer_norm2.bias"
+                                "vision_tower.encoder.layers.${layer_index}.layer_norm2.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm2.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.layer_norm2.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm2.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm2.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.layer_norm2.weight"
+                                "vision_tower.encoder.layers.${layer_index}.layer_norm2.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.layer_norm2.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.layer_norm2.weight"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc1.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc1.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.mlp.fc1.bias"
+                                "vision_tower.encoder.layers.${layer_index}.mlp.fc1.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc1.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.mlp.fc1.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc1.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc1.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.mlp.fc1.weight"
+                                "vision_tower.encoder.layers.${layer_index}.mlp.fc1.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc1.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.mlp.fc1.weight"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc2.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc2.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.mlp.fc2.bias"
+                                "vision_tower.encoder.layers.${layer_index}.mlp.fc2.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc2.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.mlp.fc2.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc2.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc2.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.mlp.fc2.weight"
+                                "vision_tower.encoder.layers.${layer_index}.mlp.fc2.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.mlp.fc2.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.mlp.fc2.weight"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.k_proj.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.k_proj.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.k_proj.bias"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.k_proj.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.k_proj.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.k_proj.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.k_proj.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.k_proj.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.k_proj.weight"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.k_proj.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.k_proj.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.k_proj.weight"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.out_proj.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.out_proj.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.out_proj.bias"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.out_proj.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.out_proj.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.out_proj.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.out_proj.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.out_proj.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.out_proj.weight"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.out_proj.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.out_proj.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.out_proj.weight"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.q_proj.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.q_proj.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.q_proj.bias"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.q_proj.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.q_proj.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.q_proj.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.q_proj.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.q_proj.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.q_proj.weight"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.q_proj.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.q_proj.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.q_proj.weight"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.v_proj.bias",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.v_proj.bias",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.v_proj.bias"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.v_proj.bias",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.v_proj.bias",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.v_proj.bias"
                             ]
                         },
                         {
-                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.v_proj.weight",
+                            "name": "vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.v_proj.weight",
                             "aliases": [
-                                "encoder.layers.${layer_index}.self_attn.v_proj.weight"
+                                "vision_tower.encoder.layers.${layer_index}.self_attn.v_proj.weight",
+                                "model.vision_tower.vision_model.encoder.layers.${layer_index}.self_attn.v_proj.weight",
+                                "model.vision_tower.encoder.layers.${layer_index}.self_attn.v_proj.weight"
                             ]
                         }
                     ]
diff --git a/mergekit/_data/architectures/mistral3.json b/mergekit/_data/architectures/mistral3.json
index f9c2baf..21ce21c 100644
--- a/mergekit/_data/architectures/mistral3.json
+++ b/mergekit/_data/architectures/mistral3.json
@@ -11,88 +11,141 @@
     "vocab_size_config_key": "text_config.vocab_size",
     "modules": {
         "text_decoder": {
-            "weight_prefix": "language_model.",
             "architecture": {
                 "model_type": "mistral",
                 "architectures": [],
                 "pre_weights": [
                     {
-                        "name": "model.embed_tokens.weight",
-                        "is_embed": true
+                        "name": "language_model.model.embed_tokens.weight",
+                        "is_embed": true,
+                        "aliases": [
+                            "model.language_model.embed_tokens.weight"
+                        ]
                     }
                 ],
                 "num_layers_config_key": "text_config.num_hidden_layers",
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "model.layers.${layer_index}.input_layernorm.weight"
+                            "name": "language_model.model.layers.${layer_index}.input_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.input_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.q_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.k_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.v_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.self_attn.o_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
+                            "name": "language_model.model.layers.${layer_index}.post_attention_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.post_attention_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.up_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.mlp.up_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.up_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.mlp.gate_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.gate_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.down_proj.weight"
+                            "name": "language_model.model.layers.${layer_index}.mlp.down_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.down_proj.weight"
+                            ]
                         }
                     ]
                 },
                 "post_weights": [
                     {
-                        "name": "model.norm.weight"
+                        "name": "language_model.model.norm.weight",
+                        "aliases": [
+                            "model.language_model.norm.weight"
+                        ]
                     },
                     {
-                        "name": "lm_head.weight",
+                        "name": "language_model.lm_head.weight",
                         "is_embed": true,
                         "optional": true,
                         "tied_names": [
-                            "model.embed_tokens.weight"
+                            "language_model.model.embed_tokens.weight",
+                            "model.language_model.embed_tokens.weight"
+                        ],
+                        "aliases": [
+                            "lm_head.weight"
                         ]
                     }
                 ]
             }
         },
         "multi_modal_projector": {
-            "weight_prefix": "multi_modal_projector.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
                 "pre_weights": [
                     {
-                        "name": "linear_1.weight"
+                        "name": "multi_modal_projector.linear_1.weight",
+                        "aliases": [
+                            "model.multi_modal_projector.linear_1.weight"
+                        ]
                     },
                     {
-                        "name": "linear_1.bias",
-                        "optional": true
+                        "name": "multi_modal_projector.linear_1.bias",
+                        "optional": true,
+                        "aliases": [
+                            "model.multi_modal_projector.linear_1.bias"
+                        ]
                     },
                     {
-                        "name": "linear_2.weight"
+                        "name": "multi_modal_projector.linear_2.weight",
+                        "aliases": [
+                            "model.multi_modal_projector.linear_2.weight"
+                        ]
                     },
                     {
-                        "name": "linear_2.bias",
-                        "optional": true
+                        "name": "multi_modal_projector.linear_2.bias",
+                        "optional": true,
+                        "aliases": [
+                            "model.multi_modal_projector.linear_2.bias"
+                        ]
                     },
                     {
-                        "name": "norm.weight"
+                        "name": "multi_modal_projector.norm.weight",
+                        "aliases": [
+                            "model.multi_modal_projector.norm.weight"
+                        ]
                     },
                     {
-                        "name": "patch_merger.merging_layer.weight"
+                        "name": "multi_modal_projector.patch_merger.merging_layer.weight",
+                        "aliases": [
+                            "model.multi_modal_projector.patch_merger.merging_layer.weight"
+                        ]
                     }
                 ],
                 "post_weights": [],
@@ -103,47 +156,79 @@
             }
         },
         "vision_tower": {
-            "weight_prefix": "vision_tower.",
             "architecture": {
                 "model_type": "pixtral",
                 "architectures": [],
                 "pre_weights": [
                     {
-                        "name": "patch_conv.weight"
+                        "name": "vision_tower.patch_conv.weight",
+                        "aliases": [
+                            "model.vision_tower.patch_conv.weight"
+                        ]
                     },
                     {
-                        "name": "ln_pre.weight"
+                        "name": "vision_tower.ln_pre.weight",
+                        "aliases": [
+                            "model.vision_tower.ln_pre.weight"
+                        ]
                     }
                 ],
                 "post_weights": [],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "transformer.layers.${layer_index}.ffn_norm.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.ffn_norm.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.ffn_norm.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.feed_forward.down_proj.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.feed_forward.down_proj.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.feed_forward.down_proj.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.feed_forward.gate_proj.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.feed_forward.gate_proj.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.feed_forward.gate_proj.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.feed_forward.up_proj.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.feed_forward.up_proj.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.feed_forward.up_proj.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.attention_norm.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.attention_norm.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.attention_norm.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.attention.k_proj.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.attention.k_proj.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.attention.k_proj.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.attention.o_proj.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.attention.o_proj.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.attention.o_proj.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.attention.q_proj.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.attention.q_proj.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.attention.q_proj.weight"
+                            ]
                         },
                         {
-                            "name": "transformer.layers.${layer_index}.attention.v_proj.weight"
+                            "name": "vision_tower.transformer.layers.${layer_index}.attention.v_proj.weight",
+                            "aliases": [
+                                "model.vision_tower.transformer.layers.${layer_index}.attention.v_proj.weight"
+                            ]
                         }
                     ]
                 },
diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index ab34672..b210d82 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -21,59 +21,102 @@
                 "pre_weights": [
                     {
                         "name": "model.embed_tokens.weight",
-                        "is_embed": true
+                        "is_embed": true,
+                        "aliases": [
+                            "model.language_model.embed_tokens.weight"
+                        ]
                     }
                 ],
                 "post_weights": [
                     {
-                        "name": "model.norm.weight"
+                        "name": "model.norm.weight",
+                        "aliases": [
+                            "model.language_model.norm.weight"
+                        ]
                     },
                     {
                         "name": "lm_head.weight",
                         "is_embed": true,
                         "optional": true,
                         "tied_names": [
-                            "model.embed_tokens.weight"
+                            "model.embed_tokens.weight",
+                            "model.language_model.embed_tokens.weight"
                         ]
                     }
                 ],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "model.layers.${layer_index}.input_layernorm.weight"
+                            "name": "model.layers.${layer_index}.input_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.input_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.down_proj.weight"
+                            "name": "model.layers.${layer_index}.mlp.down_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.down_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
+                            "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.gate_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.up_proj.weight"
+                            "name": "model.layers.${layer_index}.mlp.up_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.up_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
+                            "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.post_attention_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias"
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias"
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias"
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.v_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
+                            ]
                         }
                     ]
                 }
@@ -87,19 +130,34 @@
                 "override_num_layers": 0,
                 "pre_weights": [
                     {
-                        "name": "visual.merger.ln_q.weight"
+                        "name": "visual.merger.ln_q.weight",
+                        "aliases": [
+                            "model.visual.merger.ln_q.weight"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.0.weight"
+                        "name": "visual.merger.mlp.0.weight",
+                        "aliases": [
+                            "model.visual.merger.mlp.0.weight"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.0.bias"
+                        "name": "visual.merger.mlp.0.bias",
+                        "aliases": [
+                            "model.visual.merger.mlp.0.bias"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.2.weight"
+                        "name": "visual.merger.mlp.2.weight",
+                        "aliases": [
+                            "model.visual.merger.mlp.2.weight"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.2.bias"
+                        "name": "visual.merger.mlp.2.bias",
+                        "aliases": [
+                            "model.visual.merger.mlp.2.bias"
+                        ]
                     }
                 ],
                 "post_weights": [],
@@ -108,58 +166,94 @@
                 }
             }
         },
-        "vision_tower":
-        {
+        "vision_tower": {
             "architecture": {
                 "model_type": "",
                 "architectures": [],
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight"
+                        "name": "visual.patch_embed.proj.weight",
+                        "aliases": [
+                            "model.visual.patch_embed.proj.weight"
+                        ]
                     }
                 ],
                 "post_weights": [],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "visual.blocks.${layer_index}.attn.proj.bias"
+                            "name": "visual.blocks.${layer_index}.attn.proj.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.proj.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.attn.proj.weight"
+                            "name": "visual.blocks.${layer_index}.attn.proj.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.proj.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.attn.qkv.bias"
+                            "name": "visual.blocks.${layer_index}.attn.qkv.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.qkv.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.attn.qkv.weight"
+                            "name": "visual.blocks.${layer_index}.attn.qkv.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.qkv.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.down_proj.bias"
+                            "name": "visual.blocks.${layer_index}.mlp.down_proj.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.down_proj.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.down_proj.weight"
+                            "name": "visual.blocks.${layer_index}.mlp.down_proj.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.down_proj.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.gate_proj.bias"
+                            "name": "visual.blocks.${layer_index}.mlp.gate_proj.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.gate_proj.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.gate_proj.weight"
+                            "name": "visual.blocks.${layer_index}.mlp.gate_proj.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.gate_proj.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.up_proj.bias"
+                            "name": "visual.blocks.${layer_index}.mlp.up_proj.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.up_proj.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.up_proj.weight"
+                            "name": "visual.blocks.${layer_index}.mlp.up_proj.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.up_proj.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.norm1.weight"
+                            "name": "visual.blocks.${layer_index}.norm1.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.norm1.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.norm2.weight"
+                            "name": "visual.blocks.${layer_index}.norm2.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.norm2.weight"
+                            ]
                         }
-
-
                     ]
                 }
             }
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index c8fdfdc..154a5bf 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -12,7 +12,7 @@
     ],
     "modules": {
         "text_decoder": {
-            "architecture":{
+            "architecture": {
                 "architectures": [
                     "Qwen2ForCausalLM"
                 ],
@@ -21,59 +21,102 @@
                 "pre_weights": [
                     {
                         "name": "model.embed_tokens.weight",
-                        "is_embed": true
+                        "is_embed": true,
+                        "aliases": [
+                            "model.language_model.embed_tokens.weight"
+                        ]
                     }
                 ],
                 "post_weights": [
                     {
-                        "name": "model.norm.weight"
+                        "name": "model.norm.weight",
+                        "aliases": [
+                            "model.language_model.norm.weight"
+                        ]
                     },
                     {
                         "name": "lm_head.weight",
                         "is_embed": true,
                         "optional": true,
                         "tied_names": [
-                            "model.embed_tokens.weight"
+                            "model.embed_tokens.weight",
+                            "model.language_model.embed_tokens.weight"
                         ]
                     }
                 ],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "model.layers.${layer_index}.input_layernorm.weight"
+                            "name": "model.layers.${layer_index}.input_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.input_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.down_proj.weight"
+                            "name": "model.layers.${layer_index}.mlp.down_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.down_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
+                            "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.gate_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.mlp.up_proj.weight"
+                            "name": "model.layers.${layer_index}.mlp.up_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.mlp.up_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
+                            "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.post_attention_layernorm.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias"
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias"
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias"
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.v_proj.bias"
+                            ]
                         },
                         {
-                            "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
+                            "aliases": [
+                                "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
+                            ]
                         }
                     ]
                 }
@@ -87,22 +130,40 @@
                 "override_num_layers": 0,
                 "pre_weights": [
                     {
-                        "name": "visual.merger.ln_q.weight"
+                        "name": "visual.merger.ln_q.weight",
+                        "aliases": [
+                            "model.visual.merger.ln_q.weight"
+                        ]
                     },
                     {
-                        "name": "visual.merger.ln_q.bias"
+                        "name": "visual.merger.ln_q.bias",
+                        "aliases": [
+                            "model.visual.merger.ln_q.bias"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.0.weight"
+                        "name": "visual.merger.mlp.0.weight",
+                        "aliases": [
+                            "model.visual.merger.mlp.0.weight"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.0.bias"
+                        "name": "visual.merger.mlp.0.bias",
+                        "aliases": [
+                            "model.visual.merger.mlp.0.bias"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.2.weight"
+                        "name": "visual.merger.mlp.2.weight",
+                        "aliases": [
+                            "model.visual.merger.mlp.2.weight"
+                        ]
                     },
                     {
-                        "name": "visual.merger.mlp.2.bias"
+                        "name": "visual.merger.mlp.2.bias",
+                        "aliases": [
+                            "model.visual.merger.mlp.2.bias"
+                        ]
                     }
                 ],
                 "post_weights": [],
@@ -111,55 +172,93 @@
                 }
             }
         },
-        "vision_tower":
-        {
+        "vision_tower": {
             "architecture": {
                 "model_type": "",
                 "architectures": [],
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight"
+                        "name": "visual.patch_embed.proj.weight",
+                        "aliases": [
+                            "model.visual.patch_embed.proj.weight"
+                        ]
                     }
                 ],
                 "post_weights": [],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "visual.blocks.${layer_index}.norm1.weight"
+                            "name": "visual.blocks.${layer_index}.norm1.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.norm1.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.norm1.bias"
+                            "name": "visual.blocks.${layer_index}.norm1.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.norm1.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.norm2.weight"
+                            "name": "visual.blocks.${layer_index}.norm2.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.norm2.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.norm2.bias"
+                            "name": "visual.blocks.${layer_index}.norm2.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.norm2.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.attn.qkv.weight"
+                            "name": "visual.blocks.${layer_index}.attn.qkv.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.qkv.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.attn.qkv.bias"
+                            "name": "visual.blocks.${layer_index}.attn.qkv.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.qkv.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.attn.proj.weight"
+                            "name": "visual.blocks.${layer_index}.attn.proj.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.proj.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.attn.proj.bias"
+                            "name": "visual.blocks.${layer_index}.attn.proj.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.attn.proj.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.fc1.weight"
+                            "name": "visual.blocks.${layer_index}.mlp.fc1.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.fc1.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.fc1.bias"
+                            "name": "visual.blocks.${layer_index}.mlp.fc1.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.fc1.bias"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.fc2.weight"
+                            "name": "visual.blocks.${layer_index}.mlp.fc2.weight",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.fc2.weight"
+                            ]
                         },
                         {
-                            "name": "visual.blocks.${layer_index}.mlp.fc2.bias"
+                            "name": "visual.blocks.${layer_index}.mlp.fc2.bias",
+                            "aliases": [
+                                "model.visual.blocks.${layer_index}.mlp.fc2.bias"
+                            ]
                         }
                     ]
                 }
-- 
2.43.0


From f2fd9ce1005580f2a32440aea47a9a3caed0b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:19 +0000
Subject: [PATCH 122/147] fix: weights after the layers whose names depend on
 the layer count were looked up by the output's

---
 mergekit/plan.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index b91eb2a..e48b667 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,10 +323,15 @@ class MergePlanner:
         module_arch = self._out_module_arch(module_name)
         config_reader = ConfigReader(config=self.config, t=0, module=definition)
 
-        for weight_info in module_arch.pre_weights():
+        # names can depend on the number of layers, which differs between models
+        pre_weights_in = [
+            self._model_arch(s.model).get_module(module_name).pre_weights()
+            for s in definition.slices[0].sources
+        ]
+        for idx, weight_info in enumerate(module_arch.pre_weights()):
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weights[idx] for weights in pre_weights_in],
                 [s.model for s in definition.slices[0].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[0]
@@ -340,10 +345,14 @@ class MergePlanner:
                 module_name=module_name,
             )
 
-        for weight_info in module_arch.post_weights():
+        post_weights_in = [
+            self._model_arch(s.model).get_module(module_name).post_weights()
+            for s in definition.slices[-1].sources
+        ]
+        for idx, weight_info in enumerate(module_arch.post_weights()):
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[-1].sources),
+                [weights[idx] for weights in post_weights_in],
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From bb3249e7d6459578986da5c17355968a1dfd8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 123/147] fix: mergekit-layershuffle always failed, and ignored
 the seed

---
 mergekit/scripts/layershuffle.py | 34 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index e961427..4d938d4 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -61,25 +61,37 @@ def main(
     full_random: bool,
     merge_options: MergeOptions,
 ):
+    merge_options.apply_global_options()
+
     models = [ModelReference.parse(m) for m in model]
+    if not models:
+        raise click.UsageError("At least one model must be given")
+    weights = list(weight) or [1.0] * len(models)
+    if len(weights) != len(models):
+        raise click.UsageError("Must specify one weight per model, or none at all")
+
+    def _num_layers(model: ModelReference) -> int:
+        cfg = model.config(trust_remote_code=merge_options.trust_remote_code)
+        arch_info = arch_info_for_config(cfg)
+        if arch_info is None or len(arch_info.modules) != 1:
+            raise click.UsageError(f"Layers of {model} can not be shuffled")
+        (module,) = arch_info.modules.values()
+        return module.architecture.num_layers(cfg)
 
-    m0_cfg = models[0].config()
-    arch_info = arch_info_for_config(m0_cfg)
-    total_num_layers = arch_info.num_layers(m0_cfg)
+    total_num_layers = _num_layers(models[0])
 
     out_slices: List[OutputSliceDefinition] = []
 
     if full_random:
-        for model, frac in zip(models, weight):
-            cfg = model.config()
-            num_layers = int(arch_info.num_layers(cfg) * frac)
-            for _ in range(num_layers):
+        for src_model, frac in zip(models, weights):
+            num_layers = _num_layers(src_model)
+            for _ in range(int(num_layers * frac)):
                 src_idx = random.randrange(0, num_layers)
                 out_slices.append(
                     OutputSliceDefinition(
                         sources=[
                             InputSliceDefinition(
-                                model=str(model),
+                                model=src_model,
                                 layer_range=(src_idx, src_idx + 1),
                             )
                         ]
@@ -88,8 +100,8 @@ def main(
         random.shuffle(out_slices)
     else:
         for layer_idx in range(total_num_layers):
-            src_model = random.choices(models, weights=weight, k=1)[0]
-            if out_slices and out_slices[-1].sources[0].model == str(src_model):
+            src_model = random.choices(models, weights=weights, k=1)[0]
+            if out_slices and out_slices[-1].sources[0].model == src_model:
                 out_slices[-1].sources[0].layer_range = (
                     out_slices[-1].sources[0].layer_range[0],
                     layer_idx + 1,
@@ -99,7 +111,7 @@ def main(
                     OutputSliceDefinition(
                         sources=[
                             InputSliceDefinition(
-                                model=str(src_model),
+                                model=src_model,
                                 layer_range=(layer_idx, layer_idx + 1),
                             )
                         ]
-- 
2.43.0


From bfbd644d9bb33fa726bf18849d861005e449951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 124/147] fix: bakllama always failed

---
 mergekit/scripts/bakllama.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index e2d4b04..c4565cf 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -7,13 +7,14 @@ import click
 import yaml
 from pydantic import BaseModel
 
-from mergekit.common import MergeOptions
 from mergekit.config import (
     ConditionalParameter,
     InputSliceDefinition,
     MergeConfiguration,
+    OutputSliceDefinition,
 )
 from mergekit.merge import run_merge
+from mergekit.options import MergeOptions
 
 
 class LayerSlice(BaseModel):
@@ -50,18 +51,24 @@ def main(
     with open(config_path, "r", encoding="utf-8") as file:
         config = BakllamaConfig.model_validate(yaml.safe_load(file))
 
+    # tensors before and after the layers come from the first and last slice
+    layer_slices = list(config.layer_slices)
+    if config.embedding_source:
+        layer_slices.insert(0, LayerSlice(model=config.embedding_source, start=0, end=0))
+    if config.lm_head_source:
+        layer_slices.append(LayerSlice(model=config.lm_head_source, start=0, end=0))
+
     slices = []
-    for s in config.layer_slices:
+    for s in layer_slices:
         parameters = {}
         if s.scale is not None:
             parameters["scale"] = ConditionalParameter(
                 value=s.scale, filter="down_proj"
             )
-        slices.append(
-            InputSliceDefinition(
-                model=s.model, layer_range=(s.start, s.end), parameters=parameters
-            )
+        source = InputSliceDefinition(
+            model=s.model, layer_range=(s.start, s.end), parameters=parameters
         )
+        slices.append(OutputSliceDefinition(sources=[source]))
 
     merge_config = MergeConfiguration(
         merge_method="passthrough", slices=slices, dtype="float16" if fp16 else None
-- 
2.43.0


From e3eba5919daaefd7dfc0fa601c68327dbbd43586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 125/147] fix: mergekit-legacy ignored the documented default
 weight

---
 mergekit/scripts/legacy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index 922a9a9..82f3370 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -80,6 +80,8 @@ def main(
     merge_options: MergeOptions,
 ):
     """Wrapper for using a subset of legacy-style script arguments."""
+    merge_options.apply_global_options()
+
     models = [InputModelDefinition(model=model, parameters={}) for model in merge]
     if base_model and base_model not in merge:
         models.append(InputModelDefinition(model=base_model, parameters={}))
@@ -96,11 +98,12 @@ def main(
         assert len(weight) == 1, "Must specify exactly one weight for SLERP"
         parameters["t"] = weight[0]
     else:
-        if weight:
-            if len(weight) == 1:
-                weight = [weight[0]] * len(models)
-            for idx, w in enumerate(weight):
-                models[idx].parameters["weight"] = w
+        if not weight:
+            weight = [1.0]
+        if len(weight) == 1:
+            weight = [weight[0]] * len(models)
+        for idx, w in enumerate(weight):
+            models[idx].parameters["weight"] = w
 
     if int8_mask:
         parameters["int8_mask"] = True
-- 
2.43.0


From 1dd8d629651594b7c45fd34a74dd666af9a41308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 126/147] fix: checkpoints opened lazily by several threads at
 once were misread, and unpickling stayed patched

---
 mergekit/io/lazy_unpickle.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index ff6edc5..d94ade7 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -6,6 +6,7 @@ import collections
 import contextlib
 import os
 import pickle
+import threading
 import zipfile
 from typing import Any, Optional, Tuple, Union
 
@@ -165,12 +166,22 @@ class TorchArchiveReader:
         return self.file
 
 
+# the patches below are global, so threads have to take turns
+_patch_lock = threading.RLock()
+
+
 @contextlib.contextmanager
 def torch_lazy_load():
     """
     Context manager under which `torch.load` will return a `DeferredLoad` instead
     of `torch.Tensor.`
     """
+    with _patch_lock, _patched_pickle():
+        yield
+
+
+@contextlib.contextmanager
+def _patched_pickle():
     old_unpickler = pickle.Unpickler
     old_load = pickle.load
     old_rebuild_tensor = torch._utils._rebuild_tensor
-- 
2.43.0


From d8e9a8b8d46008244eb6393c29fc9503e88c2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 127/147] fix: chat templates and merges of models fetched from
 the Hub were left behind

---
 mergekit/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index dc2f838..aec1527 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -176,7 +176,7 @@ class ModelReference(BaseModel, frozen=True):
                     path, repo_type="model", revision=self.model.revision
                 )
             )
-            patterns = ["tokenizer.model", "*.json"]
+            patterns = ["tokenizer.model", "*.json", "*.jinja", "merges.txt"]
             if has_safetensors:
                 patterns.append("*.safetensors")
             else:
-- 
2.43.0


From b88f4840b87a90fd197cf4769d0ec579cbc313b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 128/147] fix: .bin weights on the Hub were not fetched beside
 unrelated safetensors files

---
 mergekit/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index aec1527..1024897 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -170,8 +170,9 @@ class ModelReference(BaseModel, frozen=True):
 
         path = self.model.path
         if not os.path.exists(path):
+            # files of this kind may also belong to something else
             has_safetensors = any(
-                fn.lower().endswith(".safetensors")
+                fn in ("model.safetensors", "model.safetensors.index.json")
                 for fn in huggingface_hub.list_repo_files(
                     path, repo_type="model", revision=self.model.revision
                 )
-- 
2.43.0


From 9a666b4c73d327b7d1f823355dc9430f70bbf5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 129/147] fix: merges of models under relative paths failed
 without a connection

---
 mergekit/card.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mergekit/card.py b/mergekit/card.py
index aab595c..a5effc5 100644
--- a/mergekit/card.py
+++ b/mergekit/card.py
@@ -1,6 +1,7 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
+import logging
 import os
 from typing import Generator, List, Optional
 
@@ -12,6 +13,8 @@ from yaml.nodes import SequenceNode as SequenceNode
 from mergekit import merge_methods
 from mergekit.config import MergeConfiguration, ModelReference
 
+LOG = logging.getLogger(__name__)
+
 CARD_TEMPLATE = """---
 {metadata}
 ---
@@ -74,6 +77,10 @@ def is_hf(path: str) -> bool:
         return huggingface_hub.repo_exists(path, repo_type="model", token=False)
     except HFValidationError:
         return False
+    except Exception as e:
+        # no connection, for example: all we know is that it is a local path
+        LOG.warning(f"Unable to check for a repository named {path}", exc_info=e)
+        return False
 
 
 def extract_hf_paths(models: List[ModelReference]) -> Generator[str, None, None]:
-- 
2.43.0


From a3929525f249a08e40ed24968c8121f4e8a49247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 130/147] fix: cards were untitled when the output path ended
 in a slash

---
 mergekit/merge.py                | 2 +-
 mergekit/scripts/extract_lora.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index e4f9c14..237739b 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -118,7 +118,7 @@ def run_merge(
         card_md = generate_card(
             config=merge_config,
             config_yaml=config_source,
-            name=os.path.basename(out_path),
+            name=os.path.basename(os.path.abspath(out_path)),
         )
         with open(os.path.join(out_path, "README.md"), "w", encoding="utf-8") as fp:
             fp.write(card_md)
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index dc3282a..e620576 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -185,7 +185,7 @@ def main(
                 base_model_ref,
                 model_ref,
                 invocation,
-                os.path.basename(out_path),
+                os.path.basename(os.path.abspath(out_path)),
                 base_vocab_size=plan_result.base_vocab_size,
                 final_vocab_size=plan_result.final_vocab_size,
             )
-- 
2.43.0


From 2f00e6e11cf80765026d5dfc28c6715f42dbc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 131/147] fix: the command recorded in adapter cards lost its
 quoting

---
 mergekit/scripts/extract_lora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index e620576..27cbec3 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -5,6 +5,7 @@ import json
 import logging
 import os
 import re
+import shlex
 import sys
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -178,7 +179,7 @@ def main(
     with open(os.path.join(out_path, "adapter_config.json"), "w") as f:
         json.dump(config_dict, f, indent=4)
 
-    invocation = " ".join(sys.argv)
+    invocation = shlex.join(sys.argv)
     with open(os.path.join(out_path, "README.md"), "w", encoding="utf-8") as f:
         f.write(
             generate_card_lora(
-- 
2.43.0


From deac81aa4335415e53c750cc721b3ef95a2e4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 132/147] fix: the vocabulary warning of adapter cards was not
 marked up

---
 mergekit/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/card.py b/mergekit/card.py
index a5effc5..548a4b9 100644
--- a/mergekit/card.py
+++ b/mergekit/card.py
@@ -214,7 +214,7 @@ def generate_card_lora(
     if base_vocab_size and final_vocab_size and base_vocab_size != final_vocab_size:
         verb = "extended" if final_vocab_size > base_vocab_size else "reduced"
         details += (
-            f"\n\n [!WARNING]\n> The vocabulary size has been {verb} from the base "
+            f"\n\n> [!WARNING]\n> The vocabulary size has been {verb} from the base "
             f"model's {base_vocab_size} to {final_vocab_size}. To load this adapter, "
             f"you must first call `model.resize_token_embeddings({final_vocab_size})`."
         )
-- 
2.43.0


From 573c6cee8f1b25a704ceeb875afa720adea50b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 133/147] fix: mergekit-extract-lora wrote a model card
 although told not to

---
 mergekit/scripts/extract_lora.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 27cbec3..c0ab033 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -179,18 +179,19 @@ def main(
     with open(os.path.join(out_path, "adapter_config.json"), "w") as f:
         json.dump(config_dict, f, indent=4)
 
-    invocation = shlex.join(sys.argv)
-    with open(os.path.join(out_path, "README.md"), "w", encoding="utf-8") as f:
-        f.write(
-            generate_card_lora(
-                base_model_ref,
-                model_ref,
-                invocation,
-                os.path.basename(os.path.abspath(out_path)),
-                base_vocab_size=plan_result.base_vocab_size,
-                final_vocab_size=plan_result.final_vocab_size,
+    if merge_options.write_model_card:
+        invocation = shlex.join(sys.argv)
+        with open(os.path.join(out_path, "README.md"), "w", encoding="utf-8") as f:
+            f.write(
+                generate_card_lora(
+                    base_model_ref,
+                    model_ref,
+                    invocation,
+                    os.path.basename(os.path.abspath(out_path)),
+                    base_vocab_size=plan_result.base_vocab_size,
+                    final_vocab_size=plan_result.final_vocab_size,
+                )
             )
-        )
 
     LOG.info(f"LoRA adapter extracted to {out_path}")
 
-- 
2.43.0


From d45b8b584e01ee9360459ce40a566a5352bf05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 134/147] fix: mergekit-evolve always failed on disk with
 --no-merge-cuda

---
 mergekit/evo/actors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 8d0f231..15dc7a8 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -94,7 +94,8 @@ class OnDiskMergeEvaluator(MergeActorBase):
         torch_accelerator_module = get_torch_accelerator_module(
             self.merge_options.device
         )
-        torch_accelerator_module.empty_cache()
+        if hasattr(torch_accelerator_module, "empty_cache"):
+            torch_accelerator_module.empty_cache()
         LOG.info("Merging model")
         merged_path = merge_model(
             genotype, self.genome, self.model_storage_path, self.merge_options
-- 
2.43.0


From 6762dfc9e016f4c0f4f41ddba531cfec81ec1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 135/147] fix: failed merges of a search left their partial
 output in storage

---
 mergekit/evo/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/helpers.py b/mergekit/evo/helpers.py
index fd1fd1d..62e4a2a 100644
--- a/mergekit/evo/helpers.py
+++ b/mergekit/evo/helpers.py
@@ -106,7 +106,11 @@ def merge_model(
         return None
     os.makedirs(model_storage_path, exist_ok=True)
     res = tempfile.mkdtemp(prefix="merged", dir=model_storage_path)
-    run_merge(cfg, out_path=res, options=merge_options)
+    try:
+        run_merge(cfg, out_path=res, options=merge_options)
+    except BaseException:
+        shutil.rmtree(res, ignore_errors=True)
+        raise
     return res
 
 
-- 
2.43.0


From dfedbcd837ab9c4f7987c880ae792825587fb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 136/147] fix: the serial strategy tried to evaluate impossible
 genotypes, and kept their device

---
 mergekit/evo/strategy.py | 49 +++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index adb6929..b187191 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -254,30 +254,33 @@ def evaluate_genotype_serial(
     strat = ray.util.scheduling_strategies.PlacementGroupSchedulingStrategy(
         placement_group=pg
     )
-    merged_path = merge_model_ray.options(scheduling_strategy=strat).remote(
-        genotype, genome, model_storage_path, merge_options
-    )
-    if not merged_path:
-        return {"score": None, "results": None}
-    kwargs = {}
-    if quantization_config is not None:
-        kwargs["quantization_config"] = quantization_config
-    res = ray.get(
-        evaluate_model_ray.options(scheduling_strategy=strat).remote(
-            merged_path,
-            config.tasks,
-            num_fewshot=config.num_fewshot,
-            limit=config.limit,
-            vllm=vllm,
-            batch_size=batch_size,
-            task_manager=task_manager,
-            apply_chat_template=config.apply_chat_template,
-            fewshot_as_multiturn=config.fewshot_as_multiturn,
-            **kwargs,
+    try:
+        merged_path = ray.get(
+            merge_model_ray.options(scheduling_strategy=strat).remote(
+                genotype, genome, model_storage_path, merge_options
+            )
         )
-    )
-    ray.util.remove_placement_group(pg)
-    return res
+        if not merged_path:
+            return {"score": None, "results": None}
+        kwargs = {}
+        if quantization_config is not None:
+            kwargs["quantization_config"] = quantization_config
+        return ray.get(
+            evaluate_model_ray.options(scheduling_strategy=strat).remote(
+                merged_path,
+                config.tasks,
+                num_fewshot=config.num_fewshot,
+                limit=config.limit,
+                vllm=vllm,
+                batch_size=batch_size,
+                task_manager=task_manager,
+                apply_chat_template=config.apply_chat_template,
+                fewshot_as_multiturn=config.fewshot_as_multiturn,
+                **kwargs,
+            )
+        )
+    finally:
+        ray.util.remove_placement_group(pg)
 
 
 class SerialEvaluationStrategy(EvaluationStrategyBase):
-- 
2.43.0


From cce2af9acd7204a8f9a15edbd97827e49b75296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 137/147] fix: the buffered strategy hung for good after any
 failed or impossible genotype

---
 mergekit/evo/strategy.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index b187191..993cfaa 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -137,7 +137,7 @@ class BufferedRayEvaluationStrategyActor:
 
     async def process_queue(self):
         merging: Dict[ray.ObjectRef, asyncio.Future] = {}
-        merged: List[Tuple[asyncio.Future, ray.ObjectRef]] = []
+        merged: List[Tuple[asyncio.Future, str]] = []
         evaluating: Dict[ray.ObjectRef, asyncio.Future] = {}
 
         logging.info("Starting processing loop")
@@ -182,12 +182,24 @@ class BufferedRayEvaluationStrategyActor:
                     timeout=1,
                 )
                 for r in ready:
+                    # a failure belongs to one genotype, the others carry on
                     if r in merging:
                         future_result = merging.pop(r)
-                        merged.append((future_result, r))
+                        try:
+                            merged_path = await r
+                        except Exception as e:
+                            future_result.set_exception(e)
+                            continue
+                        if merged_path:
+                            merged.append((future_result, merged_path))
+                        else:
+                            future_result.set_result({"score": None, "results": None})
                     elif r in evaluating:
                         future_result = evaluating.pop(r)
-                        future_result.set_result(await r)
+                        try:
+                            future_result.set_result(await r)
+                        except Exception as e:
+                            future_result.set_exception(e)
 
                 if (
                     not self.input_queue
-- 
2.43.0


From 53300485b9cba7013e87a2eaf6e400b93f7cb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 138/147] fix: inputs of a search whose storing was interrupted
 were taken for complete

---
 mergekit/scripts/evolve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index ae3bcbf..3d475a1 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -4,6 +4,7 @@
 import importlib.util
 import logging
 import os
+import shutil
 import time
 import warnings
 from typing import List, Optional
@@ -410,8 +411,11 @@ def _reshard_model(
         torch_dtype=torch.bfloat16,
         cache_dir=os.path.join(storage_path, "transformers_cache"),
     )
+    # only complete models take the final name: later runs rely on them
+    tmp_path = f"{out_path}.partial"
+    shutil.rmtree(tmp_path, ignore_errors=True)
     model_hf.save_pretrained(
-        out_path, safe_serialization=True, out_shard_size=1_000_000_000_000
+        tmp_path, safe_serialization=True, out_shard_size=1_000_000_000_000
     )
     try:
         tokenizer = transformers.AutoTokenizer.from_pretrained(
@@ -420,9 +424,10 @@ def _reshard_model(
             trust_remote_code=trust_remote_code,
             use_fast=True,
         )
-        tokenizer.save_pretrained(out_path)
+        tokenizer.save_pretrained(tmp_path)
     except Exception as e:
         logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+    os.rename(tmp_path, out_path)
 
     return ModelReference(model=out_path)
 
-- 
2.43.0


From 6fac5d70949ff86e04d85f13e5b6aebda76d815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 139/147] fix: in-memory evaluation rounded the rotary
 frequencies of models

---
 mergekit/evo/actors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 15dc7a8..b8d5866 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -194,7 +194,6 @@ class InMemoryMergeEvaluator(MergeActorBase):
                     cfg_out,
                     **model_kwargs,
                 )
-                .bfloat16()
                 .to(self.merge_options.device)
                 .eval()
                 .requires_grad_(False)
-- 
2.43.0


From 2a70c9f1c0422370ec29783888ed6302d0b291ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 140/147] fix: in-memory evaluation used uninitialized heads
 for models with tied embeddings

---
 mergekit/evo/actors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index b8d5866..faa8a9c 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -198,6 +198,8 @@ class InMemoryMergeEvaluator(MergeActorBase):
                 .eval()
                 .requires_grad_(False)
             )
+        # weights shared by configuration are only tied on initialization
+        inner_model.tie_weights()
 
         if self.vllm:
             # oh i hate this
@@ -286,7 +288,7 @@ class InMemoryMergeEvaluator(MergeActorBase):
             else:
                 raise ValueError("Unknown LLM engine type")
             model = worker.model_runner.model
-        param_dict = dict(model.named_parameters())
+        param_dict = dict(model.named_parameters(remove_duplicate=False))
 
         stacked_mapping = {
             # mappings for Llama/Mistral attention weights to vLLM packed tensors
-- 
2.43.0


From 9ce651236a630c7382a8b516504079a51d393376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 141/147] fix: slerp, arcee_fusion and nearswap broadcast
 tensors of different shapes

---
 mergekit/merge_methods/arcee_fusion.py | 5 +++++
 mergekit/merge_methods/nearswap.py     | 2 ++
 mergekit/merge_methods/slerp.py        | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index bce0988..9e0b95e 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -82,6 +82,11 @@ class ArceeFusionMergeTask(Task[torch.Tensor]):
         prepped_tensors = [a[1], b[1]]
 
         rectify_embed_sizes(self.weight_info, prepped_tensors)
+        if prepped_tensors[0].shape != prepped_tensors[1].shape:
+            raise RuntimeError(
+                f"Tensor size mismatch for {self.weight_info.name}, sizes: "
+                f"{[t.shape for t in prepped_tensors]}"
+            )
 
         importance_scores = self._compute_importance(
             prepped_tensors[1], prepped_tensors[0]
diff --git a/mergekit/merge_methods/nearswap.py b/mergekit/merge_methods/nearswap.py
index 73027e9..be44d35 100644
--- a/mergekit/merge_methods/nearswap.py
+++ b/mergekit/merge_methods/nearswap.py
@@ -24,6 +24,8 @@ def nearswap_merge(
         )
     a = base_tensor
     b = tensors[0]
+    if a.shape != b.shape:
+        raise RuntimeError(f"Tensor size mismatch, sizes: {[a.shape, b.shape]}")
 
     # in float32, as 1 / 1e-6 is out of range for half precision
     absdiff = torch.abs(a - b).float()
diff --git a/mergekit/merge_methods/slerp.py b/mergekit/merge_methods/slerp.py
index 208cc25..ac6b31d 100644
--- a/mergekit/merge_methods/slerp.py
+++ b/mergekit/merge_methods/slerp.py
@@ -44,6 +44,11 @@ class SlerpTask(Task[torch.Tensor]):
         prepped_tensors = [a[1], b[1]]
 
         rectify_embed_sizes(self.weight_info, prepped_tensors)
+        if prepped_tensors[0].shape != prepped_tensors[1].shape:
+            raise RuntimeError(
+                f"Tensor size mismatch for {self.weight_info.name}, sizes: "
+                f"{[t.shape for t in prepped_tensors]}"
+            )
 
         return (
             slerp(
-- 
2.43.0


From fdd9663545c7bbeff620bc9731ea55a70d1506b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 142/147] fix: slices with a reversed layer range were merged
 to models lacking layers

---
 mergekit/config.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index 684839e..4f90301 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -59,6 +59,13 @@ class InputSliceDefinition(BaseModel):
     layer_range: Tuple[int, int]
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
+    @model_validator(mode="after")
+    def validate_range(self):
+        start, end = self.layer_range
+        if not 0 <= start <= end:
+            raise ValueError(f"Not a range of layers: {list(self.layer_range)}")
+        return self
+
 
 class InputModelDefinition(BaseModel):
     model: ModelReference
-- 
2.43.0


From 728ef370c72ff4461e1ec6d986b87093e57ca6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:27 +0000
Subject: [PATCH 143/147] fix: tokensurgeon ran code of models that were not
 trusted

---
 mergekit/scripts/tokensurgeon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index ef5fa79..9d6abea 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -92,6 +92,7 @@ class TokenSurgeonOptions(BaseModel):
     batch_size: Optional[int] = None
     new_vocab_noise: Optional[float] = None
     new_vocab_scale: Optional[float] = None
+    trust_remote_code: bool = False
 
 
 def get_arch_info(
@@ -337,8 +338,12 @@ def compute_new_embeddings(
                 weight_scheme=options.weight_scheme,
             )
         elif options.method == ApproximationMethod.MATCHING_PURSUIT_ROPE:
-            model_config = options.model.config(trust_remote_code=False)
-            donor_config = options.donor.config(trust_remote_code=False)
+            model_config = options.model.config(
+                trust_remote_code=options.trust_remote_code
+            )
+            donor_config = options.donor.config(
+                trust_remote_code=options.trust_remote_code
+            )
             indices, coeffs, res, in_donor = batch_mp_rope(
                 targets,
                 donor_shared_embeds,
@@ -487,12 +492,12 @@ def build_embedding_matrix(
     donor_tokenizer = transformers.AutoTokenizer.from_pretrained(
         options.donor.model.path,
         revision=options.donor.model.revision,
-        trust_remote_code=True,
+        trust_remote_code=options.trust_remote_code,
     )
     orig_tokenizer = transformers.AutoTokenizer.from_pretrained(
         options.model.model.path,
         revision=options.model.model.revision,
-        trust_remote_code=True,
+        trust_remote_code=options.trust_remote_code,
     )
 
     LOG.info(stats.pretty_print())
@@ -664,6 +669,7 @@ def main(
         batch_size=batch_size,
         new_vocab_noise=new_vocab_noise,
         new_vocab_scale=new_vocab_scale,
+        trust_remote_code=merge_options.trust_remote_code,
     )
     prefix_match = AllowMatch(prefix_match)
     byte_match = AllowMatch(byte_match)
-- 
2.43.0


From 69855d34f113b44f674a2beea291b7587ab397a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:27 +0000
Subject: [PATCH 144/147] fix: moe merges did not load tokenizers with code of
 their own

---
 mergekit/scripts/moe.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index 50f9e6a..0f90404 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -34,7 +34,9 @@ def build(
     out_arch = select_output_arch(config, merge_options, verbose=verbose)
 
     tokenizer = transformers.AutoTokenizer.from_pretrained(
-        base_model.model.path, revision=base_model.model.revision
+        base_model.model.path,
+        revision=base_model.model.revision,
+        trust_remote_code=merge_options.trust_remote_code,
     )
     tokenizer.padding_side = "left"
     tokenizer.pad_token_id = tokenizer.bos_token_id
@@ -81,7 +83,9 @@ def build(
         logging.info("Saving tokenizer...")
         # the one used for prompts has had its padding changed
         transformers.AutoTokenizer.from_pretrained(
-            base_model.model.path, revision=base_model.model.revision
+            base_model.model.path,
+            revision=base_model.model.revision,
+            trust_remote_code=merge_options.trust_remote_code,
         ).save_pretrained(out_path, safe_serialization=True)
 
     logging.info("Done.")
-- 
2.43.0


From 3d3cd7894b060a854d435208ca8d6e0bfabb41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:28 +0000
Subject: [PATCH 145/147] fix: extracting adapters ignored how models are to be
 loaded

---
 mergekit/scripts/extract_lora.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index c0ab033..e38b3fd 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -20,7 +20,13 @@ from mergekit.architecture import WeightInfo, arch_info_for_config
 from mergekit.card import generate_card_lora
 from mergekit.common import ModelReference, get_auto_cls
 from mergekit.graph import Executor, Task
-from mergekit.io.tasks import FinalizeModel, LoadTensor, SaveTensor, TensorWriterTask
+from mergekit.io.tasks import (
+    FinalizeModel,
+    LoaderCache,
+    LoadTensor,
+    SaveTensor,
+    TensorWriterTask,
+)
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.multigpu_executor import MultiGPUExecutor
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -115,6 +121,7 @@ def main(
     merge_options: MergeOptions,
 ):
     merge_options.apply_global_options()
+    LoaderCache().setup(options=merge_options)
 
     modules_to_save = list(modules_to_save or [])
 
-- 
2.43.0


From 3824dce9fec87297f7d6ccbf1bcec95252acbb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:28 +0000
Subject: [PATCH 146/147] fix: evaluating on disk did not load tokenizers with
 code of their own

---
 mergekit/evo/actors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index faa8a9c..da44d99 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -217,7 +217,9 @@ class InMemoryMergeEvaluator(MergeActorBase):
                     )
                     tokenizer_donor = self.genome.definition.models[0]
                 tok = transformers.AutoTokenizer.from_pretrained(
-                    tokenizer_donor.model.path, use_fast=True
+                    tokenizer_donor.model.path,
+                    use_fast=True,
+                    trust_remote_code=self.merge_options.trust_remote_code,
                 )
                 tok.save_pretrained(tempdir)
 
-- 
2.43.0


From 95f4c5d29feea9b3e6bd40f100caa9afb8ba77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:59 +0000
Subject: [PATCH 147/147] fix: merges failed when another one merged the same
 adapter meanwhile

---
 mergekit/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1024897..8d3a988 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -145,7 +145,12 @@ class ModelReference(BaseModel, frozen=True):
             with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
                 tmp_path = os.path.join(tmp_dir, "merged")
                 model.save_pretrained(tmp_path, safe_serialization=True)
-                os.rename(tmp_path, out_path)
+                try:
+                    os.rename(tmp_path, out_path)
+                except OSError:
+                    # another process may have merged the same in the meantime
+                    if not os.path.exists(out_path):
+                        raise
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0

