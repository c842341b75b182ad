From d47af4c824aefaa4409f673169dc545b92fb223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 01/61] fix: withdraw the dataset manifest before rewriting or
 purging an entry

An interrupted forced refresh (or purge) left the old manifest next to a partly
written directory, which is_cached() then took for a complete entry: every later
load failed.
---
 src/modssc/data_loader/cache.py            | 3 ++-
 src/modssc/data_loader/services/service.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 5f0321e..b4bb80b 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -265,9 +265,10 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
-    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
+    # manifest first: an entry without a manifest is not served
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
+    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     index_delete(layout, [fingerprint])
 
 
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 124c009..85d20d9 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -464,7 +464,9 @@ def _download_and_store(
             ds = replace(ds, meta={})
         ds.meta["dataset_fingerprint"] = fp
 
-        # store processed
+        # store processed (withdraw the manifest first: an entry without a manifest is not
+        # served, so an interrupted rewrite cannot be mistaken for a complete entry)
+        layout.manifest_path(fp).unlink(missing_ok=True)
         processed_dir = layout.processed_dir(fp)
         if processed_dir.exists():
             # clean partial state
-- 
2.43.0


From 4e74bc53f3f1fac8abedd57e5de68526bf61699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 02/61] fix: dataset cache lock is released by its holder only,
 and by its death

A process that was refused the lock removed the lock file of the process holding it
(letting a third one in), and the lock file of a killed process blocked its dataset
for ever.
---
 src/modssc/data_loader/cache.py | 47 +++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index b4bb80b..1d231f6 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import errno
 import os
 import shutil
 import sqlite3
@@ -17,6 +18,11 @@ from modssc.data_loader.manifest import Manifest, read_manifest
 from modssc.runtime.paths import default_local_cache_subdir
 from modssc.utils.io import atomic_write_text as _atomic_write_text
 
+try:
+    import fcntl
+except ImportError:  # pragma: no cover - platforms without flock
+    fcntl = None  # type: ignore[assignment]
+
 CACHE_ENV = "MODSSC_CACHE_DIR"
 CACHE_ROOT_ENV = "MODSSC_CACHE_ROOT"
 
@@ -86,24 +92,55 @@ def ensure_layout(layout: CacheLayout) -> None:
     _ensure_index(layout.index_path)
 
 
+def _acquire_lock_file(lock_path: Path) -> int:
+    """Open and lock ``lock_path``, or raise FileExistsError if someone holds it."""
+    if fcntl is None:  # pragma: no cover - platforms without flock
+        return os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+
+    while True:
+        fd = os.open(str(lock_path), os.O_CREAT | os.O_RDWR)
+        try:
+            try:
+                fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
+            except OSError as e:
+                raise FileExistsError(
+                    errno.EEXIST, "Cache entry is locked by another process", str(lock_path)
+                ) from e
+            # A releasing holder unlinks the file: make sure we locked the one on disk.
+            try:
+                current = os.path.samestat(os.fstat(fd), os.stat(lock_path))
+            except FileNotFoundError:
+                current = False
+        except BaseException:
+            os.close(fd)
+            raise
+        if current:
+            return fd
+        os.close(fd)
+
+
 @contextmanager
 def cache_lock(layout: CacheLayout, fingerprint: str) -> Iterator[None]:
-    """Simple file lock using O_EXCL creation."""
+    """Exclusive, non-blocking file lock.
+
+    The lock ends with the process that holds it, and only its holder removes the file.
+    """
     ensure_layout(layout)
     lock_path = layout.lock_path(fingerprint)
     lock_path.parent.mkdir(parents=True, exist_ok=True)
 
-    fd: int | None = None
+    fd = _acquire_lock_file(lock_path)
     try:
-        fd = os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
         os.write(fd, str(os.getpid()).encode("utf-8"))
         yield
     finally:
-        if fd is not None:
+        if fcntl is None:  # pragma: no cover - an open file cannot be removed there
             os.close(fd)
-        # best effort cleanup
+        # best effort cleanup, while the lock is still ours
         with contextlib.suppress(Exception):
             lock_path.unlink(missing_ok=True)
+        if fcntl is not None:
+            os.close(fd)
 
 
 def is_cached(layout: CacheLayout, fingerprint: str) -> bool:
-- 
2.43.0


From 5cb796457270c1601f528872c19477a7d8d3686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 03/61] fix: keep the shape of cached object arrays that hold
 lists of strings or no rows

An array of equally long lists of strings was reloaded as a 2-D array, and an empty
(0, k) object array as a 1-D one.
---
 src/modssc/data_loader/storage/files.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/storage/files.py b/src/modssc/data_loader/storage/files.py
index 0fe7ab2..898f34e 100644
--- a/src/modssc/data_loader/storage/files.py
+++ b/src/modssc/data_loader/storage/files.py
@@ -33,9 +33,11 @@ def _is_str_object_array(arr: np.ndarray) -> bool:
         items = arr.tolist()
     except Exception:
         return False
-    # conservative: require every element to be str
+    # conservative: require every element to be str, and the nested lists written to disk
+    # to give this very array back (an array *of lists* of str would not)
     try:
-        return all(isinstance(x, str) for x in np.asarray(items, dtype=object).flat)
+        rebuilt = np.asarray(items, dtype=object)
+        return rebuilt.shape == arr.shape and all(isinstance(x, str) for x in rebuilt.flat)
     except Exception:
         return False
 
-- 
2.43.0


From 576985b48483f3735a66575153901464b1ab7f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 04/61] fix: graph splits apply the training imbalance rule the
 plan asks for

---
 src/modssc/sampling/services/service.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modssc/sampling/services/service.py b/src/modssc/sampling/services/service.py
index 52894bd..1a07a6b 100644
--- a/src/modssc/sampling/services/service.py
+++ b/src/modssc/sampling/services/service.py
@@ -437,13 +437,18 @@ def _sample_graph(
         val_mask = _idx_to_mask(n_nodes, parts["val"])
         test_mask = _idx_to_mask(n_nodes, parts["test"])
 
-    # labeling happens inside train_mask
     train_idx = np.where(train_mask)[0].astype(np.int64)
 
+    # apply imbalance to train if requested
+    rng_imb = np.random.default_rng(seed_imb)
+    if plan.imbalance.apply_to == "train" and plan.imbalance.kind != "none":
+        train_idx = apply_imbalance(idx=train_idx, y=y, spec=plan.imbalance, rng=rng_imb)
+        train_mask = _idx_to_mask(n_nodes, train_idx)
+
+    # labeling happens inside train_mask
     rng_lab = np.random.default_rng(seed_label)
     labeled_idx = select_labeled(train_idx=train_idx, y=y, spec=plan.labeling, rng=rng_lab)
 
-    rng_imb = np.random.default_rng(seed_imb)
     if plan.imbalance.apply_to == "labeled":
         labeled_idx = apply_imbalance(idx=labeled_idx, y=y, spec=plan.imbalance, rng=rng_imb)
 
-- 
2.43.0


From df4a7d6648cb48f6e0926b9b5c24b3f7bff951cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 05/61] fix: withdraw split.json before rewriting a stored
 split

---
 src/modssc/sampling/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/sampling/storage.py b/src/modssc/sampling/storage.py
index b26bd72..1061a84 100644
--- a/src/modssc/sampling/storage.py
+++ b/src/modssc/sampling/storage.py
@@ -25,15 +25,16 @@ def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False
         "stats": dict(result.stats),
         "mode": "graph" if result.is_graph() else "inductive",
     }
-    _atomic_write_text(out_dir / "split.json", json.dumps(meta, indent=2, sort_keys=True) + "\n")
-
     arrays: dict[str, np.ndarray] = {}
     for k, v in result.indices.items():
         arrays[f"idx__{k}"] = np.asarray(v, dtype=np.int64)
     for k, v in result.masks.items():
         arrays[f"mask__{k}"] = np.asarray(v, dtype=bool)
 
+    # split.json marks a complete split: withdraw it before touching the arrays, write it last
+    (out_dir / "split.json").unlink(missing_ok=True)
     np.savez_compressed(out_dir / "arrays.npz", **arrays)
+    _atomic_write_text(out_dir / "split.json", json.dumps(meta, indent=2, sort_keys=True) + "\n")
     return out_dir
 
 
-- 
2.43.0


From 4b77633af49b1d42a9963dba9df5163739548cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 06/61] fix: preprocess cache keys and purging cover every
 artifact a step reads

---
 src/modssc/preprocess/catalog.py           | 18 +++++++++---------
 src/modssc/preprocess/services/pipeline.py | 17 +++++++++++++----
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/modssc/preprocess/catalog.py b/src/modssc/preprocess/catalog.py
index 48ee9d1..e5d90d5 100644
--- a/src/modssc/preprocess/catalog.py
+++ b/src/modssc/preprocess/catalog.py
@@ -11,7 +11,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Ensure numeric arrays are 2D (n_samples, n_features) and store as features.X.",
         required_extra=None,
         modalities=(),
-        consumes=("raw.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -71,7 +71,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Fit PCA on a fit scope and transform features.X.",
         required_extra=None,
         modalities=(),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -113,7 +113,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Standardize features by removing the mean and scaling to unit variance.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -123,7 +123,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Impute missing values using mean/median/etc.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Text
@@ -287,7 +287,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Create uniform edge weights if missing.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index",),
+        consumes=("graph.edge_index", "graph.edge_weight"),
         produces=("graph.edge_weight",),
     ),
     StepSpec(
@@ -307,7 +307,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Learn node2vec embeddings from graph edges and write features.X.",
         required_extra="transductive-torch",
         modalities=("graph",),
-        consumes=("graph.edge_index",),
+        consumes=("graph.edge_index", "raw.X", "raw.y"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -317,7 +317,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Pack X and edge_index into a dict for Inductive GNNs.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -327,7 +327,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Learn DGI embeddings from graph edges and write features.X.",
         required_extra="transductive-torch",
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X", "raw.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Labels
@@ -368,7 +368,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Convert raw.y to a torch tensor and store as labels.y.",
         required_extra="inductive-torch",
         modalities=(),
-        consumes=("raw.y",),
+        consumes=("labels.y", "raw.y"),
         produces=("labels.y",),
     ),
 )
diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 5567758..d341ada 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -323,6 +323,15 @@ def _final_keep_keys(
     return keep
 
 
+def _consumed_keys(step: ResolvedStep) -> tuple[str, ...]:
+    """Artifacts a step may read: declared, implicit, and the one its params name."""
+    keys = [*step.spec.consumes, *_IMPLICIT_CONSUMES.get(step.step_id, ())]
+    input_key = step.params.get("input_key")
+    if isinstance(input_key, str):
+        keys.append(input_key)
+    return tuple(dict.fromkeys(keys))
+
+
 def _build_purge_keep_sets(
     steps: tuple[ResolvedStep, ...], *, output_key: str, initial_keys: set[str]
 ) -> list[set[str]]:
@@ -331,8 +340,7 @@ def _build_purge_keep_sets(
     for i in range(len(steps) - 1, -1, -1):
         keep_sets[i] = set(required)
         step = steps[i]
-        required.update(step.spec.consumes)
-        required.update(_IMPLICIT_CONSUMES.get(step.step_id, ()))
+        required.update(_consumed_keys(step))
     return keep_sets
 
 
@@ -513,9 +521,10 @@ def preprocess(
         )
 
         # Compute step fingerprint with input provenance.
-        inputs_train = {k: prov_train.get(k) for k in spec.consumes if k in prov_train}
+        consumed = _consumed_keys(step)
+        inputs_train = {k: prov_train.get(k) for k in consumed if k in prov_train}
         inputs_test = (
-            {k: prov_test.get(k) for k in spec.consumes if k in prov_test} if test_store else {}
+            {k: prov_test.get(k) for k in consumed if k in prov_test} if test_store else {}
         )
         step_fp = fingerprint(
             {
-- 
2.43.0


From dc769dad6e4d75891855f63d0fd8df63f9a35f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 07/61] fix: purging intermediate artifacts no longer demands
 the raw ones at the end

---
 src/modssc/preprocess/services/pipeline.py     | 8 ++++----
 src/modssc/preprocess/steps/core/ensure_2d.py  | 3 ++-
 src/modssc/preprocess/steps/labels/to_torch.py | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index d341ada..b3b7f48 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -682,8 +682,8 @@ def preprocess(
 
     # Choose final X for downstream training.
     out_key = plan.output_key
-    X_train = train_store.get(out_key, train_store.require("raw.X"))
-    y_train = train_store.get("labels.y", train_store.require("raw.y"))
+    X_train = train_store.require(out_key if train_store.has(out_key) else "raw.X")
+    y_train = train_store.require("labels.y" if train_store.has("labels.y") else "raw.y")
 
     edges_train = train_store.get("graph.edge_index", dataset.train.edges)
     if train_store.has("graph.edge_weight"):
@@ -696,8 +696,8 @@ def preprocess(
 
     test_out = None
     if dataset.test is not None and test_store is not None:
-        X_test = test_store.get(out_key, test_store.require("raw.X"))
-        y_test = test_store.get("labels.y", test_store.require("raw.y"))
+        X_test = test_store.require(out_key if test_store.has(out_key) else "raw.X")
+        y_test = test_store.require("labels.y" if test_store.has("labels.y") else "raw.y")
         edges_test = test_store.get("graph.edge_index", dataset.test.edges)
         if test_store.has("graph.edge_weight"):
             edges_test = {
diff --git a/src/modssc/preprocess/steps/core/ensure_2d.py b/src/modssc/preprocess/steps/core/ensure_2d.py
index 0b8c699..21ae40a 100644
--- a/src/modssc/preprocess/steps/core/ensure_2d.py
+++ b/src/modssc/preprocess/steps/core/ensure_2d.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from modssc.preprocess.errors import PreprocessValidationError
 from modssc.preprocess.numpy_adapter import to_numpy
+from modssc.preprocess.steps.base import get_X
 from modssc.preprocess.store import ArtifactStore
 
 
@@ -15,7 +16,7 @@ class Ensure2DStep:
     """Ensure a numeric array representation and store it as features.X."""
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
-        x = store.get("features.X", store.require("raw.X"))
+        x = get_X(store)
         arr = to_numpy(x)
 
         if arr.ndim == 0:
diff --git a/src/modssc/preprocess/steps/labels/to_torch.py b/src/modssc/preprocess/steps/labels/to_torch.py
index e773396..c34d4d7 100644
--- a/src/modssc/preprocess/steps/labels/to_torch.py
+++ b/src/modssc/preprocess/steps/labels/to_torch.py
@@ -48,7 +48,7 @@ class LabelsToTorchStep:
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         torch = require(module="torch", extra="inductive-torch", purpose="labels.to_torch")
-        y = store.get("labels.y", store.require("raw.y"))
+        y = store.require("labels.y" if store.has("labels.y") else "raw.y")
         dev = _resolve_device(torch, self.device)
         dt = _resolve_dtype(torch, self.dtype)
         tensor_type = getattr(torch, "Tensor", None)
-- 
2.43.0


From 4a00150cd1475978f967e9a470d8047ce9d51879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:20 +0000
Subject: [PATCH 08/61] fix: a partly cached preprocess step is recomputed for
 both splits

---
 src/modssc/preprocess/services/pipeline.py | 54 +++++++++++-----------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index b3b7f48..cf92a3e 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -270,6 +270,23 @@ def _cache_outputs_complete(outputs: dict[str, Any], produces: tuple[str, ...])
     return expected.issubset(outputs.keys())
 
 
+def _load_cached_outputs(
+    cm: CacheManager, step_fp: str, *, step: ResolvedStep, split: str
+) -> dict[str, Any] | None:
+    if not cm.has_step_outputs(step_fp, split=split):
+        return None
+    try:
+        produced = cm.load_step_outputs(step_fingerprint=step_fp, split=split)
+        if not _cache_outputs_complete(produced, step.spec.produces):
+            raise PreprocessCacheError(
+                f"Incomplete cached outputs for step {step.step_id!r} ({split})"
+            )
+    except PreprocessCacheError as e:
+        logger.warning("Preprocess cache miss for %s (%s): %s", step.step_id, split, e)
+        return None
+    return produced
+
+
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
@@ -555,20 +572,18 @@ def preprocess(
                 )
             step_obj.fit(train_store, fit_indices=np.asarray(fit_indices, dtype=np.int64), rng=rng)
 
-        # Load from cache if available, otherwise compute and save.
+        # Load from cache if available, otherwise compute and save. The splits share one
+        # random stream, so a step is either loaded for all splits or computed for all.
         produced_train: dict[str, Any] | None = None
-        train_from_cache = False
-        if cm is not None and cm.has_step_outputs(step_fp, split="train"):
-            try:
-                produced_train = cm.load_step_outputs(step_fingerprint=step_fp, split="train")
-                if not _cache_outputs_complete(produced_train, spec.produces):
-                    raise PreprocessCacheError(
-                        f"Incomplete cached outputs for step {step_id!r} (train)"
-                    )
-                train_from_cache = True
-            except PreprocessCacheError as e:
-                logger.warning("Preprocess cache miss for %s (train): %s", step_id, e)
-                produced_train = None
+        produced_test: dict[str, Any] | None = None
+        if cm is not None:
+            produced_train = _load_cached_outputs(cm, step_fp, step=step, split="train")
+            if test_store is not None:
+                produced_test = _load_cached_outputs(cm, step_fp, step=step, split="test")
+                if produced_train is None or produced_test is None:
+                    produced_train = produced_test = None
+        train_from_cache = produced_train is not None
+        test_from_cache = produced_test is not None
         if produced_train is None:
             produced_train = step_obj.transform(train_store, rng=rng)
             if not isinstance(produced_train, dict):
@@ -604,20 +619,7 @@ def preprocess(
             perf_counter() - step_start,
         )
 
-        produced_test: dict[str, Any] | None = None
-        test_from_cache = False
         if test_store is not None:
-            if cm is not None and cm.has_step_outputs(step_fp, split="test"):
-                try:
-                    produced_test = cm.load_step_outputs(step_fingerprint=step_fp, split="test")
-                    if not _cache_outputs_complete(produced_test, spec.produces):
-                        raise PreprocessCacheError(
-                            f"Incomplete cached outputs for step {step_id!r} (test)"
-                        )
-                    test_from_cache = True
-                except PreprocessCacheError as e:
-                    logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
-                    produced_test = None
             if produced_test is None:
                 produced_test = step_obj.transform(test_store, rng=rng)
                 if not isinstance(produced_test, dict):
-- 
2.43.0


From 62dee06aae261b13c222149dba292956804ef45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 09/61] fix: cached preprocess artifacts come back with their
 types and shapes

---
 src/modssc/preprocess/cache.py | 40 +++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 7f95172..bd300b7 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -94,13 +94,24 @@ def _save_json(path: Path, payload: Any, *, extra: dict[str, Any] | None = None)
     import json
 
     path_json = path.with_suffix(".json")
-    atomic_write_text(path_json, json.dumps(payload, ensure_ascii=False))
+    atomic_write_text(path_json, json.dumps(payload))
     desc: dict[str, Any] = {"type": "json", "path": path_json.name}
     if extra:
         desc.update(extra)
     return desc
 
 
+_JSON_SCALARS = (str, int, float, bool, type(None))
+
+
+def _survives_json(value: Any) -> bool:
+    if type(value) is list:
+        return all(_survives_json(v) for v in value)
+    if type(value) is dict:
+        return all(type(k) is str and _survives_json(v) for k, v in value.items())
+    return type(value) in _JSON_SCALARS
+
+
 def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
     """Save a value to disk and return a small descriptor for the manifest."""
     if isinstance(value, np.ndarray):
@@ -116,6 +127,18 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
                 payload = value.tolist()
             except TypeError:
                 return None
+            plain = all(type(v) in _JSON_SCALARS for v in value.flat)
+            if not plain or (value.size == 0 and value.ndim != 1):
+                # JSON would lose the element types or the shape.
+                try:
+                    np.save(path.with_suffix(".npy"), value, allow_pickle=True)
+                except Exception:
+                    return None
+                return {
+                    "type": "npy",
+                    "path": path.with_suffix(".npy").name,
+                    "allow_pickle": True,
+                }
             return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
         np.save(path.with_suffix(".npy"), value, allow_pickle=False)
         return {"type": "npy", "path": path.with_suffix(".npy").name}
@@ -146,16 +169,11 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             }
 
     # Support simple JSON-serializable payloads (lists of strings, small dicts, etc.).
-    if isinstance(value, (str, int, float, bool)) or value is None:
+    # Anything JSON would not give back unchanged is not cached.
+    if isinstance(value, tuple) and _survives_json(list(value)):
+        return _save_json(path, list(value), extra={"format": "tuple"})
+    if _survives_json(value):
         return _save_json(path, value)
-    if isinstance(value, (list, tuple, dict)):
-        try:
-            payload = value
-            if isinstance(value, tuple):
-                payload = list(value)
-            return _save_json(path, payload)
-        except TypeError:
-            return None
 
     if _is_scipy_sparse(value):
         # Lazy import to keep base install light.
@@ -222,6 +240,8 @@ def _load_value(path: Path, desc: dict[str, Any]) -> Any:
         payload = json.loads(fp.read_text(encoding="utf-8"))
         if desc.get("format") == "ndarray":
             return np.asarray(payload, dtype=object)
+        if desc.get("format") == "tuple":
+            return tuple(payload)
         return payload
     if t == "npz":
         try:
-- 
2.43.0


From 9b7488b68118d88d560a53cd8ffa284a36b45a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 10/61] fix: damaged preprocess cache files are recomputed
 instead of failing the run

---
 src/modssc/preprocess/cache.py | 41 ++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index bd300b7..9214ebc 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -254,6 +254,19 @@ def _load_value(path: Path, desc: dict[str, Any]) -> Any:
     raise PreprocessCacheError(f"Unsupported cached value type: {t!r}")
 
 
+def _load_saved(path: Path, desc: dict[str, Any]) -> Any:
+    """Load a value, reporting a missing, truncated or unreadable file as a cache error."""
+    try:
+        size = desc.get("size")
+        if size is not None and (path / str(desc.get("path"))).stat().st_size != size:
+            raise PreprocessCacheError(f"Truncated cache file: {path / str(desc.get('path'))}")
+        return _load_value(path, desc)
+    except (PreprocessCacheError, OptionalDependencyError):
+        raise
+    except Exception as e:
+        raise PreprocessCacheError(f"Failed to load cached value: {desc.get('path')!r}") from e
+
+
 def _resolve_cache_device(torch: Any, device_str: str) -> Any | None:
     if not device_str:
         return None
@@ -300,11 +313,19 @@ class CacheManager:
         d.mkdir(parents=True, exist_ok=True)
 
         saved: dict[str, dict[str, Any]] = {}
+        unsaved: list[str] = []
+        names: set[str] = set()
         for key, value in produced.items():
             name = _safe_name(key)
+            while name in names:
+                name += "_"
+            names.add(name)
             desc = _save_value(d / name, value)
-            if desc is not None:
-                saved[key] = desc
+            if desc is None:
+                unsaved.append(key)
+                continue
+            desc["size"] = (d / desc["path"]).stat().st_size
+            saved[key] = desc
 
         step_root = self.step_dir(step_fingerprint)
         step_root.mkdir(parents=True, exist_ok=True)
@@ -313,7 +334,7 @@ class CacheManager:
         if manifest_path.exists():
             try:
                 payload = json_load(manifest_path.read_text(encoding="utf-8"))
-            except PreprocessCacheError as e:
+            except (PreprocessCacheError, OSError, UnicodeDecodeError) as e:
                 logger.warning(
                     "Resetting corrupt preprocess manifest: step=%s split=%s error=%s",
                     step_fingerprint,
@@ -328,6 +349,8 @@ class CacheManager:
 
         payload.setdefault("saved", {})
         payload["saved"][split] = saved
+        payload.setdefault("unsaved", {})
+        payload["unsaved"][split] = unsaved
         atomic_write_text(manifest_path, stable_json_dumps(payload))
 
     def load_step_outputs(self, *, step_fingerprint: str, split: str) -> dict[str, Any]:
@@ -336,16 +359,20 @@ class CacheManager:
         if not manifest_path.exists():
             raise PreprocessCacheError(f"Missing cache manifest for step {step_fingerprint}")
 
-        manifest = manifest_path.read_text()
-        data = json_load(manifest)
-        saved = data.get("saved", {}).get(split, {})
+        try:
+            data = json_load(manifest_path.read_text(encoding="utf-8"))
+        except (OSError, UnicodeDecodeError) as e:
+            raise PreprocessCacheError(f"Unreadable cache manifest: {manifest_path}") from e
+        saved = data.get("saved", {}).get(split)
         if not isinstance(saved, dict):
             raise PreprocessCacheError("Invalid cache manifest structure")
+        if data.get("unsaved", {}).get(split):
+            raise PreprocessCacheError("Some outputs of the step could not be cached")
         out: dict[str, Any] = {}
         split_path = self.split_dir(step_fingerprint, split)
         for key, desc in saved.items():
             if isinstance(desc, dict):
-                out[str(key)] = _load_value(split_path, desc)
+                out[str(key)] = _load_saved(split_path, desc)
         return out
 
 
-- 
2.43.0


From 5d0de7c1ff9fa6ae254e880ce553dcaad8f98f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 11/61] fix: datasets without an identity no longer share
 preprocess cache entries by shape

---
 src/modssc/preprocess/services/pipeline.py | 42 +++++++++++++++++-----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index cf92a3e..c7a90bf 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -2,6 +2,8 @@ from __future__ import annotations
 
 import hashlib
 import logging
+import pickle
+import uuid
 from collections.abc import Mapping, Sequence
 from functools import lru_cache
 from pathlib import Path
@@ -287,23 +289,45 @@ def _load_cached_outputs(
     return produced
 
 
+def _update_digest(digest: Any, value: Any) -> None:
+    digest.update(f"{type(value).__module__}.{type(value).__qualname__}(".encode())
+    if isinstance(value, np.ndarray) and not value.dtype.hasobject:
+        digest.update(f"{value.dtype.str}{value.shape}".encode())
+        digest.update(np.ascontiguousarray(value).tobytes())
+    elif isinstance(value, np.ndarray):
+        digest.update(f"{value.dtype.str}{value.shape}".encode())
+        _update_digest(digest, value.tolist())
+    elif isinstance(value, Mapping):
+        for k in sorted(value, key=str):
+            _update_digest(digest, k)
+            _update_digest(digest, value[k])
+    elif isinstance(value, (list, tuple)):
+        for item in value:
+            _update_digest(digest, item)
+    elif isinstance(value, (str, bytes, int, float, type(None))):
+        digest.update(repr(value).encode("utf-8", "backslashreplace"))
+    else:
+        try:
+            digest.update(pickle.dumps(value))
+        except Exception:
+            digest.update(uuid.uuid4().bytes)  # no identity to share cache entries under
+    digest.update(b")")
+
+
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
         return fp
 
-    # Fallback: structural fingerprint only (no full data hashing).
-    train_x = getattr(dataset.train, "X", None)
-    train_y = getattr(dataset.train, "y", None)
+    # Fallback: datasets without an identity are told apart by their content.
+    digest = hashlib.sha256()
+    for split in (dataset.train, dataset.test):
+        for name in ("X", "y", "edges", "masks"):
+            _update_digest(digest, getattr(split, name, None))
     payload = {
         "modality": dataset.meta.get("modality") if hasattr(dataset, "meta") else None,
-        "train": {
-            "x_shape": getattr(train_x, "shape", None),
-            "y_shape": getattr(train_y, "shape", None),
-            "has_edges": dataset.train.edges is not None,
-            "has_masks": dataset.train.masks is not None,
-        },
         "has_test": dataset.test is not None,
+        "content": digest.hexdigest(),
     }
     return fingerprint(payload, prefix="dataset:")
 
-- 
2.43.0


From 7cbe547d0ed4e0c27b39819478cad92717a6f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 12/61] fix: node2vec and DGI preprocessing start from weights
 drawn under the step's seed

---
 src/modssc/preprocess/steps/graph/dgi.py      | 31 ++++++++++---------
 src/modssc/preprocess/steps/graph/node2vec.py |  4 +++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/modssc/preprocess/steps/graph/dgi.py b/src/modssc/preprocess/steps/graph/dgi.py
index f3b18d1..ea857c3 100644
--- a/src/modssc/preprocess/steps/graph/dgi.py
+++ b/src/modssc/preprocess/steps/graph/dgi.py
@@ -145,6 +145,7 @@ def _train_dgi(
         edge_index_t, edge_weight_t = _add_self_loops(edge_index_t, edge_weight_t, n_nodes=n_nodes)
     edge_weight_t = _normalize_edge_weight(edge_index_t, edge_weight_t, n_nodes=n_nodes)
 
+    torch.manual_seed(int(seed))
     encoder = _GCNEncoder(
         X_t.shape[1],
         hidden=int(hidden_dim),
@@ -158,8 +159,6 @@ def _train_dgi(
     )
     bce = torch.nn.BCEWithLogitsLoss()
 
-    torch.manual_seed(int(seed))
-
     for _epoch in range(int(unsup_epochs)):
         encoder.train()
         disc.train()
@@ -239,17 +238,19 @@ class GraphDGIStep:
 
         seed = int(rng.integers(0, 1 << 31))
 
-        emb = _train_dgi(
-            X_np,
-            edge_index_np,
-            edge_weight_np,
-            embedding_dim=int(self.embedding_dim),
-            hidden_dim=int(self.hidden_dim),
-            dropout=float(self.dropout),
-            unsup_epochs=int(self.unsup_epochs),
-            unsup_lr=float(self.unsup_lr),
-            add_self_loops=bool(self.add_self_loops),
-            device=str(self.device),
-            seed=seed,
-        )
+        torch = require(module="torch", extra="transductive-torch", purpose="graph.dgi")
+        with torch.random.fork_rng(devices=[]):
+            emb = _train_dgi(
+                X_np,
+                edge_index_np,
+                edge_weight_np,
+                embedding_dim=int(self.embedding_dim),
+                hidden_dim=int(self.hidden_dim),
+                dropout=float(self.dropout),
+                unsup_epochs=int(self.unsup_epochs),
+                unsup_lr=float(self.unsup_lr),
+                add_self_loops=bool(self.add_self_loops),
+                device=str(self.device),
+                seed=seed,
+            )
         return {"features.X": emb}
diff --git a/src/modssc/preprocess/steps/graph/node2vec.py b/src/modssc/preprocess/steps/graph/node2vec.py
index 071920e..bd88208 100644
--- a/src/modssc/preprocess/steps/graph/node2vec.py
+++ b/src/modssc/preprocess/steps/graph/node2vec.py
@@ -99,6 +99,10 @@ class GraphNode2VecStep:
         device = torch.device(dev_name)
         emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
         ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
+        # The default initialisation draws from torch's global generator.
+        for table in (emb, ctx):
+            init = np_rng.standard_normal((n_nodes, int(self.embedding_dim)), dtype=np.float32)
+            table.weight.data[...] = torch.as_tensor(init, device=device).data
         optimizer = torch.optim.Adam(
             list(emb.parameters()) + list(ctx.parameters()), lr=float(self.embed_lr)
         )
-- 
2.43.0


From aed4ba67a8f5c5e2b25b37e9fcd1f2b6b001bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 13/61] fix: train and test labels are encoded with the same
 classes

---
 src/modssc/preprocess/steps/labels/classes.py | 15 ++++++++++++
 src/modssc/preprocess/steps/labels/encode.py  | 18 +++++++++++----
 .../preprocess/steps/labels/ensure_onehot.py  | 23 +++++++++----------
 3 files changed, 39 insertions(+), 17 deletions(-)
 create mode 100644 src/modssc/preprocess/steps/labels/classes.py

diff --git a/src/modssc/preprocess/steps/labels/classes.py b/src/modssc/preprocess/steps/labels/classes.py
new file mode 100644
index 0000000..ef40513
--- /dev/null
+++ b/src/modssc/preprocess/steps/labels/classes.py
@@ -0,0 +1,15 @@
+from __future__ import annotations
+
+import numpy as np
+
+
+def encode_with_classes(
+    y: np.ndarray, known: np.ndarray | None
+) -> tuple[np.ndarray, np.ndarray]:
+    """Encode labels, keeping the codes of known classes and numbering new ones after them."""
+    classes = np.unique(y)
+    if known is not None:
+        classes = np.concatenate([known, classes[~np.isin(classes, known)]])
+    order = np.argsort(classes, kind="stable")
+    codes = order[np.searchsorted(classes, y, sorter=order)] if y.size else order[:0]
+    return codes.astype(np.int64), classes
diff --git a/src/modssc/preprocess/steps/labels/encode.py b/src/modssc/preprocess/steps/labels/encode.py
index 373cd96..83ade3c 100644
--- a/src/modssc/preprocess/steps/labels/encode.py
+++ b/src/modssc/preprocess/steps/labels/encode.py
@@ -1,18 +1,26 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 import numpy as np
 
+from modssc.preprocess.steps.labels.classes import encode_with_classes
 from modssc.preprocess.store import ArtifactStore
-from modssc.supervised.utils import encode_labels
+from modssc.supervised.utils import as_numpy
 
 
 @dataclass
 class EncodeLabelsStep:
-    """Encode raw.y to contiguous int64 labels and store labels.y/classes."""
+    """Encode raw.y to contiguous int64 labels and store labels.y/classes.
+
+    The first split transformed (train) fixes the codes; later splits reuse them.
+    """
+
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, object]:  # noqa: ARG002
-        y = store.require("raw.y")
-        y_enc, classes = encode_labels(y)
+        y = as_numpy(store.require("raw.y")).reshape(-1)
+        y_enc, classes = encode_with_classes(y, self._classes)
+        if self._classes is None:
+            self._classes = classes
         return {"labels.y": y_enc, "labels.classes": classes}
diff --git a/src/modssc/preprocess/steps/labels/ensure_onehot.py b/src/modssc/preprocess/steps/labels/ensure_onehot.py
index 3c0123f..c2d8179 100644
--- a/src/modssc/preprocess/steps/labels/ensure_onehot.py
+++ b/src/modssc/preprocess/steps/labels/ensure_onehot.py
@@ -1,10 +1,11 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any
 
 import numpy as np
 
+from modssc.preprocess.steps.labels.classes import encode_with_classes
 from modssc.preprocess.store import ArtifactStore
 
 
@@ -13,21 +14,19 @@ class EnsureOneHotLabelsStep:
     unlabeled_value: int = -1
     dtype: str = "float32"
 
+    # Columns are fixed by the first split transformed (train).
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
+
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         y = np.asarray(store.require("raw.y"))
         y_flat = y.reshape(-1)
         labeled = y_flat != int(self.unlabeled_value)
 
-        if labeled.any():
-            classes = np.unique(y_flat[labeled])
-        else:
-            classes = np.asarray([], dtype=y_flat.dtype)
-
-        C = int(classes.size)
-        onehot = np.zeros((y_flat.size, C), dtype=self.dtype)
-        if C > 0 and labeled.any():
-            rows = np.nonzero(labeled)[0]
-            cols = np.searchsorted(classes, y_flat[labeled])
-            onehot[rows, cols] = 1.0
+        cols, classes = encode_with_classes(y_flat[labeled], self._classes)
+        if self._classes is None:
+            self._classes = classes
+
+        onehot = np.zeros((y_flat.size, int(classes.size)), dtype=self.dtype)
+        onehot[np.nonzero(labeled)[0], cols] = 1.0
 
         return {"labels.y_onehot": onehot, "labels.is_labeled": labeled.astype(bool)}
-- 
2.43.0


From 81a5fc676a1998611fbfd2c09c6bdc1cd3eca14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 14/61] fix: plans whose output is not numeric no longer fail
 the non-finite check

---
 src/modssc/preprocess/services/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index c7a90bf..a723f41 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -261,6 +261,8 @@ def _maybe_log_gpu_info(
 def _maybe_warn_nonfinite(name: str, value: Any, *, max_elems: int = 1_000_000) -> None:
     if not isinstance(value, np.ndarray):
         return
+    if not (np.issubdtype(value.dtype, np.number) or value.dtype == np.bool_):
+        return
     if int(value.size) > max_elems:
         return
     if not np.isfinite(value).all():
-- 
2.43.0


From a1e625a7bc2a9cf74201c73cbbb332f5fb42f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 15/61] fix: generating views from a view dataset leaves its
 metadata alone

---
 src/modssc/views/services/service.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 7f53aea..fdf10ab 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -209,7 +209,8 @@ def generate_views(
 
         # 3) Meta
         meta: dict[str, Any] = dict(ds.meta) if isinstance(ds.meta, dict) else {}
-        meta.setdefault("views", {})
+        # Fresh mappings: a dataset that is itself a view carries these, and stays as it is.
+        meta["views"] = dict(meta.get("views") or {})
         meta["views"][str(view.name)] = {
             "columns": cols.tolist(),
             "columns_mode": (view.columns.mode if view.columns is not None else "all"),
@@ -217,7 +218,7 @@ def generate_views(
         }
         if view.meta:
             # view-level metadata override/additions
-            meta.setdefault("view_meta", {})
+            meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
-- 
2.43.0


From abba3688b3358c384bc43bdfe9f995283a3c611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 16/61] fix: swap noise on torch tensors draws from the
 augmentation context's generator

---
 src/modssc/data_augmentation/ops/tabular.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index cf32383..507b293 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -82,8 +82,10 @@ class SwapNoise(AugmentationOp):
 
             torch = importlib.import_module("torch")
 
-            mask_swap = torch.rand(x.shape, device=x.device) < p
-            noise = torch.randn(x.shape, device=x.device, dtype=x.dtype)
+            # Draw from a generator seeded by rng, never from torch's global one
+            gen = torch.Generator(device=x.device).manual_seed(int(rng.integers(0, 1 << 31)))
+            mask_swap = torch.rand(x.shape, generator=gen, device=x.device) < p
+            noise = torch.randn(x.shape, generator=gen, device=x.device, dtype=x.dtype)
 
             # Where mask_swap is True, use noise, else x
             return torch.where(mask_swap, noise, x)
-- 
2.43.0


From f6c4418eacd10acc753abe0a96577618ab8c4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 17/61] fix: masked features are zero even where they were NaN
 or infinite

---
 src/modssc/data_augmentation/ops/graph.py   | 5 +++--
 src/modssc/data_augmentation/ops/tabular.py | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/graph.py b/src/modssc/data_augmentation/ops/graph.py
index 01577d0..561f1de 100644
--- a/src/modssc/data_augmentation/ops/graph.py
+++ b/src/modssc/data_augmentation/ops/graph.py
@@ -139,9 +139,10 @@ class FeatureMask(AugmentationOp):
             mask = torch.from_numpy((rng.random(size=tuple(x.shape)) >= p).astype(np.float32))
             mask = mask.to(device=x.device, dtype=x.dtype)
             x2 = x * mask
+            x2.masked_fill_(mask == 0, 0)  # x * 0 is not 0 for NaN and infinite entries
         else:
             x_np = np.asarray(x)
-            mask = (rng.random(size=x_np.shape) >= p).astype(x_np.dtype, copy=False)
-            x2 = x_np * mask
+            keep = rng.random(size=x_np.shape) >= p
+            x2 = np.where(keep, x_np, np.zeros((), dtype=x_np.dtype))
 
         return _rebuild_graph(g, kind, x=x2, edge_index=edge_index, edge_weight=edge_weight)
diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index 507b293..569b087 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -52,10 +52,12 @@ class FeatureDropout(AugmentationOp):
             torch = importlib.import_module("torch")
             mask = torch.from_numpy((rng.random(size=tuple(x.shape)) >= p).astype(np.float32))
             mask = mask.to(device=x.device, dtype=x.dtype)
-            return x * mask
+            out = x * mask
+            out.masked_fill_(mask == 0, 0)  # x * 0 is not 0 for NaN and infinite entries
+            return out
         arr = np.asarray(x)
-        mask = (rng.random(size=arr.shape) >= p).astype(arr.dtype, copy=False)
-        return arr * mask
+        keep = rng.random(size=arr.shape) >= p
+        return np.where(keep, arr, np.zeros((), dtype=arr.dtype))
 
 
 @register_op("tabular.swap_noise")
-- 
2.43.0


From 650c0aa33bf93ee0419a496d3a4fde217c4b859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 18/61] fix: text operations of strength zero return the text
 as it is

---
 src/modssc/data_augmentation/ops/text.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/text.py b/src/modssc/data_augmentation/ops/text.py
index a4f7fb3..d731f45 100644
--- a/src/modssc/data_augmentation/ops/text.py
+++ b/src/modssc/data_augmentation/ops/text.py
@@ -52,13 +52,16 @@ class WordDropout(_PerItemTextOp):
     modality: Modality = "text"
     p: float = 0.1
 
+    def apply(self, x: Any, *, rng: np.random.Generator, ctx: AugmentationContext) -> Any:
+        if not (0.0 <= float(self.p) <= 1.0):
+            raise ValueError("p must be in [0, 1]")
+        return super().apply(x, rng=rng, ctx=ctx)
+
     def _apply_one(self, s: str, *, rng: np.random.Generator) -> str:
+        p = float(self.p)
         tokens = s.split()
-        if not tokens:
+        if not tokens or p == 0.0:
             return s
-        p = float(self.p)
-        if not (0.0 <= p <= 1.0):
-            raise ValueError("p must be in [0, 1]")
         keep = [t for t in tokens if rng.random() >= p]
         if not keep:
             keep = [tokens[int(rng.integers(0, len(tokens)))]]
@@ -76,9 +79,9 @@ class RandomSwap(_PerItemTextOp):
 
     def _apply_one(self, s: str, *, rng: np.random.Generator) -> str:
         tokens = s.split()
-        if len(tokens) < 2:
-            return s
         n_swaps = max(0, int(self.n_swaps))
+        if len(tokens) < 2 or n_swaps == 0:
+            return s
         for _ in range(n_swaps):
             i, j = rng.integers(0, len(tokens), size=(2,))
             i = int(i)
-- 
2.43.0


From 83dd1ccba516c8bffd686f19e90ad90ce5731357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:49 +0000
Subject: [PATCH 19/61] fix: sklearn kNN keeps at most k neighbours per node
 among duplicate points

---
 src/modssc/graph/construction/backends/sklearn_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/graph/construction/backends/sklearn_backend.py b/src/modssc/graph/construction/backends/sklearn_backend.py
index c3b25bc..7ed8a43 100644
--- a/src/modssc/graph/construction/backends/sklearn_backend.py
+++ b/src/modssc/graph/construction/backends/sklearn_backend.py
@@ -38,7 +38,12 @@ def knn_edges_sklearn(
     dst = idx.reshape(-1)
     dist_flat = dist.reshape(-1)
     if not include_self:
-        mask = dst != src
+        keep = (dst != src).reshape(n_rows, n_cols)
+        # Among duplicates a point may not be listed as its own neighbor: drop the farthest
+        # one instead, so that no row keeps more than k neighbors.
+        if n_cols > int(k):
+            keep[keep.all(axis=1), -1] = False
+        mask = keep.reshape(-1)
         src = src[mask]
         dst = dst[mask]
         dist_flat = dist_flat[mask]
-- 
2.43.0


From ec7539d5627b2d7f04563fcc307a237d0e0f5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 20/61] fix: array fingerprints cover the whole array

---
 src/modssc/graph/fingerprint.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/modssc/graph/fingerprint.py b/src/modssc/graph/fingerprint.py
index f834b89..2176ab6 100644
--- a/src/modssc/graph/fingerprint.py
+++ b/src/modssc/graph/fingerprint.py
@@ -54,15 +54,9 @@ def fingerprint_spec(spec: Any) -> str:
 
 
 def fingerprint_array(arr: Any, *, max_bytes: int = 2_000_000) -> str:
-    """Fingerprint a dense or sparse array deterministically.
+    """Fingerprint the whole content of a dense or sparse array deterministically.
 
-    This is intended as a fallback when no dataset-level fingerprint is available.
-    For large arrays, it hashes only a prefix and a suffix of the raw bytes.
-
-    Notes
-    -----
-    This is not a cryptographic commitment of the entire array when it is huge.
-    For reproducible runs, you should pass dataset_fingerprint from data_loader whenever possible.
+    Large arrays are hashed in blocks of ``max_bytes``.
     """
     # scipy sparse support without importing scipy at module import
     if hasattr(arr, "tocoo") and hasattr(arr, "data") and hasattr(arr, "indices"):
@@ -71,9 +65,9 @@ def fingerprint_array(arr: Any, *, max_bytes: int = 2_000_000) -> str:
         pieces = [
             str(getattr(coo, "shape", None)).encode("utf-8"),
             str(getattr(coo, "dtype", None)).encode("utf-8"),
-            np.asarray(coo.row, dtype=np.int64).tobytes()[:max_bytes],
-            np.asarray(coo.col, dtype=np.int64).tobytes()[:max_bytes],
-            np.asarray(coo.data).tobytes()[:max_bytes],
+            np.asarray(coo.row, dtype=np.int64).tobytes(),
+            np.asarray(coo.col, dtype=np.int64).tobytes(),
+            np.asarray(coo.data).tobytes(),
         ]
         h = hashlib.sha256()
         for p in pieces:
@@ -82,17 +76,12 @@ def fingerprint_array(arr: Any, *, max_bytes: int = 2_000_000) -> str:
 
     a = np.asarray(arr)
     meta = f"shape={a.shape};dtype={a.dtype};".encode()
-    raw = np.ascontiguousarray(a).view(np.uint8)
+    raw = np.ascontiguousarray(a).view(np.uint8).reshape(-1)
     n = int(raw.size)
 
     h = hashlib.sha256()
     h.update(meta)
 
-    if n <= max_bytes:
-        h.update(raw.tobytes())
-        return h.hexdigest()
-
-    # prefix + suffix to reduce cost while keeping determinism
-    h.update(raw[:max_bytes].tobytes())
-    h.update(raw[-max_bytes:].tobytes())
+    for start in range(0, n, max(1, int(max_bytes))):
+        h.update(raw[start : start + max(1, int(max_bytes))].tobytes())
     return h.hexdigest()
-- 
2.43.0


From e89510640224433839248af3950a0c2ca5acd578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 21/61] fix: graph cache keys cover the features, not only the
 dataset they come from

---
 src/modssc/graph/construction/services/service.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modssc/graph/construction/services/service.py b/src/modssc/graph/construction/services/service.py
index 8d3e778..2178a58 100644
--- a/src/modssc/graph/construction/services/service.py
+++ b/src/modssc/graph/construction/services/service.py
@@ -30,12 +30,14 @@ def _degree_summary(edge_index: np.ndarray, n_nodes: int) -> tuple[int, float, i
 
 def _graph_fingerprint(
     *,
+    features_fingerprint: str,
     dataset_fingerprint: str,
     preprocess_fingerprint: str | None,
     spec: GraphBuilderSpec,
     seed: int,
 ) -> str:
     payload = {
+        "features_fingerprint": features_fingerprint,
         "dataset_fingerprint": dataset_fingerprint,
         "preprocess_fingerprint": preprocess_fingerprint,
         "spec": spec.to_dict(),
@@ -67,7 +69,8 @@ def build_graph(
     seed:
         Seed used for deterministic components (notably the anchor scheme).
     dataset_fingerprint:
-        Optional precomputed fingerprint for X (useful when X is already cached upstream).
+        Optional fingerprint of the dataset X comes from. Recorded, and part of the cache key
+        next to the content of X (one dataset gives several feature matrices).
     preprocess_fingerprint:
         Optional fingerprint of the preprocessing pipeline.
     cache:
@@ -92,9 +95,11 @@ def build_graph(
     X_arr = np.asarray(X)
     n_nodes = int(X_arr.shape[0])
 
-    ds_fp = dataset_fingerprint or fingerprint_array(X_arr)
+    x_fp = fingerprint_array(X_arr)
+    ds_fp = dataset_fingerprint or x_fp
     spec_fp = fingerprint_dict(spec.to_dict())
     g_fp = _graph_fingerprint(
+        features_fingerprint=x_fp,
         dataset_fingerprint=ds_fp,
         preprocess_fingerprint=preprocess_fingerprint,
         spec=spec,
-- 
2.43.0


From 08ee67936462aa9eea9ee5a91a7d17d53aae138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 22/61] fix: damaged graph cache entries are rebuilt

---
 src/modssc/graph/cache.py                         | 12 ++++++++++++
 src/modssc/graph/construction/services/service.py |  9 ++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index b8d4694..a3b3f60 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -124,6 +124,9 @@ class GraphCache(_FingerprintCacheOps):
     def _clear_entry_dir(self, d: Path) -> None:
         if not d.exists():
             return
+        # Withdraw the manifest first: without it the rest is not taken for an entry.
+        with contextlib.suppress(FileNotFoundError):
+            (d / "manifest.json").unlink()
         # Only remove files we create, keep directory (for resumable work dirs).
         for p in d.iterdir():
             if p.is_dir():
@@ -258,6 +261,13 @@ class GraphCache(_FingerprintCacheOps):
         else:
             edge_index, edge_weight = self._load_edges_single(d)
 
+        if "has_edge_weight" in manifest and manifest["has_edge_weight"] != (
+            edge_weight is not None
+        ):
+            raise GraphCacheError(f"Cached edge weights do not match the manifest: {d}")
+        if "n_edges" in manifest and manifest["n_edges"] != int(edge_index.shape[-1]):
+            raise GraphCacheError(f"Cached edges do not match the manifest: {d}")
+
         n_nodes = int(manifest.get("n_nodes"))
         directed = bool(manifest.get("directed", False))
         meta = dict(manifest.get("meta", {}))
@@ -301,6 +311,8 @@ class ViewsCache(_FingerprintCacheOps):
         d = self.entry_dir(fingerprint)
         d.mkdir(parents=True, exist_ok=True)
         if overwrite and d.exists():
+            with contextlib.suppress(FileNotFoundError):
+                (d / "manifest.json").unlink()
             for p in d.iterdir():
                 if p.is_file():
                     p.unlink()
diff --git a/src/modssc/graph/construction/services/service.py b/src/modssc/graph/construction/services/service.py
index 2178a58..d859b8c 100644
--- a/src/modssc/graph/construction/services/service.py
+++ b/src/modssc/graph/construction/services/service.py
@@ -111,8 +111,15 @@ def build_graph(
         edge_shard_size=edge_shard_size,
     )
 
+    cached_graph: GraphArtifact | None = None
     if cache and cache_store.exists(g_fp):
-        graph, _ = cache_store.load(g_fp)
+        try:
+            cached_graph, _ = cache_store.load(g_fp)
+        except Exception as e:
+            logger.warning("Damaged graph cache entry, rebuilding: %s (%s)", g_fp, e)
+
+    if cached_graph is not None:
+        graph = cached_graph
         logger.info(
             "Graph cached: fingerprint=%s n_nodes=%s n_edges=%s duration_s=%.3f",
             g_fp,
-- 
2.43.0


From bdb6438fe369fc5b0970ff2518a4671048d6ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 23/61] fix: damaged graph work files are recomputed

---
 .../construction/backends/numpy_backend.py    | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/modssc/graph/construction/backends/numpy_backend.py b/src/modssc/graph/construction/backends/numpy_backend.py
index 9d2bd4e..ff63952 100644
--- a/src/modssc/graph/construction/backends/numpy_backend.py
+++ b/src/modssc/graph/construction/backends/numpy_backend.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import logging
 import os
 import tempfile
 from pathlib import Path
@@ -7,6 +8,8 @@ from typing import Literal
 
 import numpy as np
 
+logger = logging.getLogger(__name__)
+
 Metric = Literal["cosine", "euclidean"]
 
 
@@ -37,6 +40,21 @@ def _load_npz(path: Path) -> dict[str, np.ndarray]:
         return {k: np.asarray(npz[k]) for k in npz.files}
 
 
+def _load_part(path: Path | None) -> tuple[np.ndarray, np.ndarray, np.ndarray] | None:
+    """Load a stored chunk result, or None when it is missing or unusable."""
+    if path is None or not path.exists():
+        return None
+    try:
+        data = _load_npz(path)
+        src = np.asarray(data["src"], dtype=np.int64)
+        dst = np.asarray(data["dst"], dtype=np.int64)
+        dist = np.asarray(data["dist"], dtype=np.float32)
+    except Exception as e:
+        logger.warning("Unusable graph work file, recomputing: %s (%s)", path, e)
+        return None
+    return src, dst, dist
+
+
 def knn_edges_numpy(
     X: np.ndarray,
     *,
@@ -103,11 +121,9 @@ def knn_edges_numpy(
         end = min(n, start + int(chunk_size))
         part_path = wd / f"knn_{start}_{end}.npz" if wd is not None else None
 
-        if part_path is not None and resume and part_path.exists():
-            data = _load_npz(part_path)
-            src = np.asarray(data["src"], dtype=np.int64)
-            dst = np.asarray(data["dst"], dtype=np.int64)
-            dflat = np.asarray(data["dist"], dtype=np.float32)
+        part = _load_part(part_path) if resume else None
+        if part is not None:
+            src, dst, dflat = part
         else:
             Xi = Xn[start:end]
             if metric == "cosine":
@@ -212,11 +228,9 @@ def epsilon_edges_numpy(
         end = min(n, start + int(chunk_size))
         part_path = wd / f"eps_{start}_{end}.npz" if wd is not None else None
 
-        if part_path is not None and resume and part_path.exists():
-            data = _load_npz(part_path)
-            src = np.asarray(data["src"], dtype=np.int64)
-            dst = np.asarray(data["dst"], dtype=np.int64)
-            dflat = np.asarray(data["dist"], dtype=np.float32)
+        part = _load_part(part_path) if resume else None
+        if part is not None:
+            src, dst, dflat = part
         else:
             Xi = Xn[start:end]
             if metric == "cosine":
-- 
2.43.0


From a77833b9fcf6f680e8cca4f2897bd6f2620b8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 24/61] fix: damaged graph views entries are recomputed

---
 src/modssc/graph/featurization/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 893f695..b9a2c90 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -58,8 +58,14 @@ def graph_to_views(
         root=Path(cache_dir) if cache_dir is not None else ViewsCache.default().root
     )
 
+    cached: DatasetViews | None = None
     if cache_enabled and cache_store.exists(views_fp):
-        cached, _ = cache_store.load(views_fp, y=np.asarray(dataset.y), masks=dataset.masks)
+        try:
+            cached, _ = cache_store.load(views_fp, y=np.asarray(dataset.y), masks=dataset.masks)
+        except Exception as e:
+            logger.warning("Damaged graph views entry, recomputing: %s (%s)", views_fp, e)
+
+    if cached is not None:
         logger.info(
             "Graph views cached: fingerprint=%s views=%s duration_s=%.3f",
             views_fp,
-- 
2.43.0


From 567741fef6850918b7dc557e4c5bf88fcd4d1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 25/61] fix: graph view cache keys cover features, edges and
 weights

---
 src/modssc/graph/featurization/api.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index b9a2c90..163948d 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
 from ..cache import ViewsCache
-from ..fingerprint import fingerprint_dict
+from ..fingerprint import fingerprint_array, fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
 from .views.attr import attr_view
@@ -18,9 +18,12 @@ from .views.struct import StructParams, struct_embeddings
 logger = logging.getLogger(__name__)
 
 
-def _views_fingerprint(*, graph_fingerprint: str, spec: GraphFeaturizerSpec, seed: int) -> str:
+def _views_fingerprint(
+    *, graph_fingerprint: str, content: dict[str, str | None], spec: GraphFeaturizerSpec, seed: int
+) -> str:
     payload = {
         "graph_fingerprint": graph_fingerprint,
+        "content": content,
         "spec": spec.to_dict(),
         "seed": int(seed),
     }
@@ -51,7 +54,18 @@ def graph_to_views(
             }
         )
 
-    views_fp = _views_fingerprint(graph_fingerprint=graph_fp, spec=spec, seed=int(seed))
+    # The views follow from what the dataset holds, so its content is part of the key.
+    graph = dataset.graph
+    content = {
+        "X": fingerprint_array(dataset.X),
+        "edge_index": fingerprint_array(graph.edge_index),
+        "edge_weight": (
+            fingerprint_array(graph.edge_weight) if graph.edge_weight is not None else None
+        ),
+    }
+    views_fp = _views_fingerprint(
+        graph_fingerprint=graph_fp, content=content, spec=spec, seed=int(seed)
+    )
 
     cache_enabled = bool(spec.cache) if cache is None else bool(cache)
     cache_store = ViewsCache(
-- 
2.43.0


From 3b79fd05b187031988f64d429f5eeb71ad918cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 26/61] fix: metrics reject label vectors of different lengths

---
 src/modssc/evaluation/metrics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modssc/evaluation/metrics.py b/src/modssc/evaluation/metrics.py
index c085ad4..5110cc4 100644
--- a/src/modssc/evaluation/metrics.py
+++ b/src/modssc/evaluation/metrics.py
@@ -108,6 +108,11 @@ def list_metrics() -> list[str]:
 def compute_metrics(
     y_true: np.ndarray, y_pred: np.ndarray, metrics: Iterable[str]
 ) -> dict[str, float]:
+    if np.shape(y_true) != np.shape(y_pred):
+        raise ValueError(
+            "y_true and y_pred must have the same shape, "
+            f"got {np.shape(y_true)} and {np.shape(y_pred)}"
+        )
     out: dict[str, float] = {}
     available = list_metrics()
     for name in metrics:
-- 
2.43.0


From 50f2aaf7f71c89dbb5c90843dbebe58e1b1d1a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 27/61] fix: search ranges must be finite and loguniform draws
 stay in range

---
 src/modssc/hpo/samplers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modssc/hpo/samplers.py b/src/modssc/hpo/samplers.py
index 4c68bda..8afa911 100644
--- a/src/modssc/hpo/samplers.py
+++ b/src/modssc/hpo/samplers.py
@@ -12,7 +12,10 @@ from .types import DistributionSpec, HpoError
 def _require_real(value: Any, *, name: str) -> float:
     if isinstance(value, bool) or not isinstance(value, numbers.Real):
         raise HpoError(f"{name} must be a real number")
-    return float(value)
+    out = float(value)
+    if not math.isfinite(out):
+        raise HpoError(f"{name} must be finite")
+    return out
 
 
 def _require_int(value: Any, *, name: str) -> int:
@@ -92,7 +95,9 @@ def sample_distribution(spec: DistributionSpec, rng: np.random.Generator) -> Any
     if dist == "loguniform":
         low = float(spec.low)
         high = float(spec.high)
-        return float(math.exp(rng.uniform(math.log(low), math.log(high))))
+        value = math.exp(rng.uniform(math.log(low), math.log(high)))
+        # exp/log rounding may step just outside a narrow range
+        return float(min(max(value, low), high))
     if dist == "randint":
         low = int(spec.low)
         high = int(spec.high)
-- 
2.43.0


From 7d6f7af265112ea5b640d4c794615e6f3b63e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 28/61] fix: tri-training compares and hands over labels, not
 score columns

---
 src/modssc/inductive/methods/tri_training.py | 56 +++++++++++++++-----
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 4287bfd..8070231 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -42,6 +42,28 @@ class TriTrainingSpec(BaseClassifierSpec):
     bootstrap_ratio: float = 1.0
 
 
+def _classifier_labels(clf: Any) -> np.ndarray | None:
+    """Labels of the score columns of a classifier, if it exposes them."""
+    classes = getattr(clf, "classes_", None)
+    if classes is None:
+        classes = getattr(clf, "classes_t_", None)
+    if classes is None:
+        return None
+    if hasattr(classes, "detach"):
+        return classes.detach().cpu().numpy()
+    return np.asarray(classes)
+
+
+def _predicted_labels(clf: Any, scores: Any) -> np.ndarray:
+    """Predicted label per row; a bootstrap may miss classes, so columns differ between learners."""
+    idx = scores.argmax(1)
+    idx = idx.detach().cpu().numpy() if hasattr(idx, "detach") else np.asarray(idx)
+    classes = _classifier_labels(clf)
+    if classes is None or classes.shape != (int(scores.shape[1]),):
+        return idx
+    return classes[idx]
+
+
 class TriTrainingMethod(InductiveMethod):
     """Tri-training with three classifiers (CPU/GPU)."""
 
@@ -123,8 +145,8 @@ class TriTrainingMethod(InductiveMethod):
                     j, k = [x for x in range(3) if x != i]
                     scores_j = predict_scores(clfs[j], X_u, backend=backend)
                     scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                    pred_j = scores_j.argmax(axis=1)
-                    pred_k = scores_k.argmax(axis=1)
+                    pred_j = _predicted_labels(clfs[j], scores_j)
+                    pred_k = _predicted_labels(clfs[k], scores_k)
                     agree = pred_j == pred_k
                     if not np.any(agree):
                         continue
@@ -220,9 +242,9 @@ class TriTrainingMethod(InductiveMethod):
                 j, k = [x for x in range(3) if x != i]
                 scores_j = predict_scores(clfs[j], X_u, backend=backend)
                 scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                pred_j = scores_j.argmax(dim=1)
-                pred_k = scores_k.argmax(dim=1)
-                agree = pred_j == pred_k
+                pred_j = _predicted_labels(clfs[j], scores_j)
+                pred_k = _predicted_labels(clfs[k], scores_k)
+                agree = torch.as_tensor(pred_j == pred_k, device=scores_j.device)
                 if not bool(agree.any()):
                     continue
 
@@ -252,7 +274,7 @@ class TriTrainingMethod(InductiveMethod):
                     order = torch.topk(scores_agree, k=topk).indices
                     idx = idx[order]
 
-                for ii, label in zip(idx.tolist(), pred_j[idx].tolist(), strict=True):
+                for ii, label in zip(idx.tolist(), pred_j[idx.tolist()].tolist(), strict=True):
                     added_idx[i].add(int(ii))
                     added_labels[i][int(ii)] = label
                 new_added += int(idx.numel())
@@ -293,15 +315,9 @@ class TriTrainingMethod(InductiveMethod):
         distinct_shapes = set(shapes)
 
         def _resolve_score_classes(clf: Any, scores: Any) -> np.ndarray | None:
-            classes = getattr(clf, "classes_", None)
-            if classes is None:
-                classes = getattr(clf, "classes_t_", None)
-            if classes is None:
+            classes_arr = _classifier_labels(clf)
+            if classes_arr is None:
                 return None
-            if hasattr(classes, "detach"):
-                classes_arr = classes.detach().cpu().numpy()
-            else:
-                classes_arr = np.asarray(classes)
             if classes_arr.ndim != 1 or int(classes_arr.shape[0]) != int(scores.shape[1]):
                 raise InductiveValidationError(
                     "TriTraining classifiers disagree on class counts "
@@ -391,13 +407,25 @@ class TriTrainingMethod(InductiveMethod):
     def predict(self, X: Any) -> np.ndarray:
         proba = self.predict_proba(X)
         backend = detect_backend(X)
+        # predict_proba aligns differing classifiers to the sorted union of their labels
+        labels = [_classifier_labels(clf) for clf in self._clfs]
+        union = None
+        if all(lab is not None for lab in labels) and any(
+            not np.array_equal(lab, labels[0]) for lab in labels[1:]
+        ):
+            union = np.asarray(sorted({v for lab in labels for v in lab.tolist()}))
         if backend == "numpy":
             idx = proba.argmax(axis=1)
+            if union is not None:
+                return union[idx]
             classes = getattr(self._clfs[0], "classes_", None)
             if classes is None:
                 return idx
             return np.asarray(classes)[idx]
         idx = proba.argmax(dim=1)
+        if union is not None:
+            torch = optional_import("torch", extra="inductive-torch")
+            return torch.as_tensor(union, device=idx.device)[idx]
         classes_t = getattr(self._clfs[0], "classes_t_", None)
         if classes_t is None:
             return idx
-- 
2.43.0


From cb3e5ad81c37f3095d05e6fdfcc8a15d86073a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 29/61] fix: probabilities from signed decision scores are
 probabilities

---
 src/modssc/inductive/methods/co_training.py   | 10 ++------
 .../methods/helpers/classifier_bridge.py      | 25 +++++++++++++++++++
 src/modssc/inductive/methods/pseudo_label.py  | 10 ++------
 src/modssc/inductive/methods/s4vm.py          | 11 ++------
 src/modssc/inductive/methods/self_training.py | 10 ++------
 src/modssc/inductive/methods/setred.py        | 10 ++------
 src/modssc/inductive/methods/supervised.py    | 11 ++------
 src/modssc/inductive/methods/tri_training.py  | 17 +++----------
 8 files changed, 40 insertions(+), 64 deletions(-)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index d954211..3ce8ac3 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -20,6 +20,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
     select_top_per_class,
     select_top_per_class_torch,
     unwrap_torch_x,
@@ -459,14 +460,7 @@ class CoTrainingMethod(InductiveMethod):
             X1 = _view_predict_payload_torch(v1, name=self._view_keys[0])
             X2 = _view_predict_payload_torch(v2, name=self._view_keys[1])
         scores = self._predict_scores_pair(X1, X2)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, data: Any) -> np.ndarray:
         if self._clf1 is None:
diff --git a/src/modssc/inductive/methods/helpers/classifier_bridge.py b/src/modssc/inductive/methods/helpers/classifier_bridge.py
index e4fcea4..44198a8 100644
--- a/src/modssc/inductive/methods/helpers/classifier_bridge.py
+++ b/src/modssc/inductive/methods/helpers/classifier_bridge.py
@@ -189,6 +189,31 @@ def predict_scores(model: Any, X: Any, *, backend: str):
     raise InductiveValidationError(f"Unknown backend: {backend!r}")
 
 
+def scores_to_proba(scores: Any, *, backend: str):
+    """Turn classifier scores into probability rows that keep the order of the scores.
+
+    Non-negative rows are divided by their sum; rows with negative entries are signed
+    decision scores and go through a softmax.
+    """
+    if backend == "numpy":
+        signed = (scores < 0).any(axis=1, keepdims=True)
+        row_sum = scores.sum(axis=1, keepdims=True)
+        row_sum[row_sum == 0.0] = 1.0
+        proba = scores / row_sum
+        if signed.any():
+            exp = np.exp(scores - scores.max(axis=1, keepdims=True))
+            proba = np.where(signed, exp / exp.sum(axis=1, keepdims=True), proba)
+        return proba.astype(np.float32, copy=False)
+    torch = _torch()
+    row_sum = scores.sum(dim=1, keepdim=True)
+    row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
+    proba = scores / row_sum
+    signed = (scores < 0).any(dim=1, keepdim=True)
+    if bool(signed.any()):
+        proba = torch.where(signed, torch.softmax(scores, dim=1), proba)
+    return proba
+
+
 def select_confident(
     scores: np.ndarray,
     *,
diff --git a/src/modssc/inductive/methods/pseudo_label.py b/src/modssc/inductive/methods/pseudo_label.py
index dac483a..96e5ab8 100644
--- a/src/modssc/inductive/methods/pseudo_label.py
+++ b/src/modssc/inductive/methods/pseudo_label.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
     select_confident,
     select_confident_torch,
 )
@@ -210,14 +211,7 @@ class PseudoLabelMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/s4vm.py b/src/modssc/inductive/methods/s4vm.py
index a22bb61..81c1f73 100644
--- a/src/modssc/inductive/methods/s4vm.py
+++ b/src/modssc/inductive/methods/s4vm.py
@@ -23,6 +23,7 @@ from modssc.inductive.methods.utils import (
     ensure_torch_data,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -193,15 +194,7 @@ class S4VMMethod(InductiveMethod):
             X = flatten_if_numpy(X)
 
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            if np.any(row_sum == 0.0):
-                row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/self_training.py b/src/modssc/inductive/methods/self_training.py
index 74b98c4..1de2cb8 100644
--- a/src/modssc/inductive/methods/self_training.py
+++ b/src/modssc/inductive/methods/self_training.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -473,14 +474,7 @@ class SelfTrainingMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index b165b46..12bbf05 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
     unwrap_torch_x,
 )
 from modssc.inductive.optional import optional_import
@@ -505,14 +506,7 @@ class SetredMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/supervised.py b/src/modssc/inductive/methods/supervised.py
index 82c01f1..34c7859 100644
--- a/src/modssc/inductive/methods/supervised.py
+++ b/src/modssc/inductive/methods/supervised.py
@@ -21,8 +21,8 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
 )
-from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
 
 logger = logging.getLogger(__name__)
@@ -100,14 +100,7 @@ class SupervisedMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 8070231..f5d9eec 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_torch_data,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -382,27 +383,15 @@ class TriTrainingMethod(InductiveMethod):
                 avg = torch.mean(torch.stack(aligned_scores, dim=0), dim=0)
 
             # Normalize row sums
-            if backend == "numpy":
-                row_sum = avg.sum(axis=1, keepdims=True)
-                row_sum[row_sum == 0.0] = 1.0
-                return (avg / row_sum).astype(np.float32, copy=False)
-            else:
-                row_sum = avg.sum(dim=1, keepdim=True)
-                row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-                return avg / row_sum
+            return scores_to_proba(avg, backend=backend)
 
         # Fast path if shapes match
         if backend == "numpy":
             avg = np.mean(np.stack(scores_list, axis=0), axis=0)
-            row_sum = avg.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (avg / row_sum).astype(np.float32, copy=False)
         else:
             torch = optional_import("torch", extra="inductive-torch")
             avg = torch.mean(torch.stack(scores_list, dim=0), dim=0)
-            row_sum = avg.sum(dim=1, keepdim=True)
-            row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-            return avg / row_sum
+        return scores_to_proba(avg, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         proba = self.predict_proba(X)
-- 
2.43.0


From 1e7584b8d149fcf10ad9409d5548820e4cd7003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 30/61] fix: torch logistic regression draws its initial
 weights under its seed

---
 src/modssc/supervised/backends/torch/logreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/logreg.py b/src/modssc/supervised/backends/torch/logreg.py
index 988b101..ff60886 100644
--- a/src/modssc/supervised/backends/torch/logreg.py
+++ b/src/modssc/supervised/backends/torch/logreg.py
@@ -87,12 +87,12 @@ class TorchLogRegClassifier(TorchScoresClassifierBase):
         n_features = int(X.shape[1])
         n_classes = int(classes.numel())
 
+        torch.manual_seed(int(self.seed or 0))
         model = torch.nn.Linear(n_features, n_classes).to(X.device)
         optimizer = torch.optim.AdamW(
             model.parameters(), lr=float(self.lr), weight_decay=float(self.weight_decay)
         )
 
-        torch.manual_seed(int(self.seed or 0))
         model.train()
         n = int(X.shape[0])
         for _epoch in range(int(self.max_epochs)):
-- 
2.43.0


From 341d2b9f53163684d637fd6735b1197ae646c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 31/61] fix: mixmatch draws its mixing weights from the fit's
 generator

---
 src/modssc/inductive/methods/mixmatch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/mixmatch.py b/src/modssc/inductive/methods/mixmatch.py
index d7f7b44..8549701 100644
--- a/src/modssc/inductive/methods/mixmatch.py
+++ b/src/modssc/inductive/methods/mixmatch.py
@@ -6,6 +6,8 @@ from dataclasses import dataclass
 from time import perf_counter
 from typing import Any
 
+import numpy as np
+
 from modssc.inductive.base import InductiveMethod, MethodInfo
 from modssc.inductive.deep import TorchModelBundle
 from modssc.inductive.errors import InductiveValidationError
@@ -63,8 +65,9 @@ def _mixup(
     if alpha <= 0:
         lam = torch.ones((batch,), device=base.device, dtype=base.dtype)
     else:
-        dist = torch.distributions.Beta(float(alpha), float(alpha))
-        lam = dist.sample((batch,)).to(device=base.device, dtype=base.dtype)
+        mix_seed = int(torch.randint(0, 2**31 - 1, (1,), generator=generator, device="cpu"))
+        beta = np.random.default_rng(mix_seed).beta(float(alpha), float(alpha), size=batch)
+        lam = torch.as_tensor(beta).to(device=base.device, dtype=base.dtype)
         lam = torch.max(lam, 1.0 - lam)
 
     perm = torch.randperm(batch, generator=generator, device="cpu")
-- 
2.43.0


From 67e9608fc4b7c00b934e48c5fb2ca0d21f07ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 32/61] fix: graph networks draw their initial weights under
 the fit's seed

---
 src/modssc/transductive/methods/gnn/appnp.py     |  2 ++
 src/modssc/transductive/methods/gnn/chebnet.py   |  2 ++
 src/modssc/transductive/methods/gnn/gat.py       |  9 ++++++++-
 src/modssc/transductive/methods/gnn/gcn.py       | 10 +++++++++-
 src/modssc/transductive/methods/gnn/gcnii.py     | 10 +++++++++-
 src/modssc/transductive/methods/gnn/grand.py     |  3 ++-
 src/modssc/transductive/methods/gnn/graphsage.py |  2 ++
 src/modssc/transductive/methods/gnn/h_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/n_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/planetoid.py |  3 ++-
 src/modssc/transductive/methods/gnn/sgc.py       | 10 +++++++++-
 11 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index cc30179..1f29dc6 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -16,6 +16,7 @@ from .common import (
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -107,6 +108,7 @@ class APPNPMethod(TransductiveMethod):
             val_count if val_count is not None else "none",
         )
 
+        set_torch_seed(seed)
         self._model = _APPNPNet(
             prep.X.shape[1],
             hidden_dim=self.spec.hidden_dim,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 70cf0c9..1f39e74 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -127,6 +128,7 @@ class ChebNetMethod(TransductiveMethod):
             val_count if val_count is not None else "none",
         )
 
+        set_torch_seed(seed)
         self._model = _ChebNet(
             prep.X.shape[1],
             hidden_dim=self.spec.hidden_dim,
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 65c4300..e65a035 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -10,7 +10,13 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -221,6 +227,7 @@ class GATMethod(TransductiveMethod):
             val_count if val_count is not None else "none",
         )
 
+        set_torch_seed(seed)
         self._model = _GATNet(
             prep.X.shape[1],
             head_dim=self.spec.head_dim,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 379cb1e..d1b09fd 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -98,6 +105,7 @@ class GCNMethod(TransductiveMethod):
             val_count if val_count is not None else "none",
         )
 
+        set_torch_seed(seed)
         self._model = _GCNNet(
             prep.X.shape[1],
             self.spec.hidden_dim,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 43484c0..e3dd9d2 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -11,7 +11,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -120,6 +127,7 @@ class GCNIIMethod(TransductiveMethod):
             val_count if val_count is not None else "none",
         )
 
+        set_torch_seed(seed)
         self._model = _GCNIINet(
             prep.X.shape[1],
             hidden_dim=self.spec.hidden_dim,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 8f92109..9405e44 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -11,7 +11,7 @@ from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
 from .common import TwoLayerMLP as _MLP
-from .common import normalize_device_name, prepare_data_cached, spmm, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, spmm, torch
 
 logger = logging.getLogger(__name__)
 
@@ -88,6 +88,7 @@ class GRANDMethod(TransductiveMethod):
         self._edge_index = prep.edge_index
         self._edge_weight = prep.edge_weight
 
+        set_torch_seed(seed)
         model = _MLP(
             prep.X.shape[1], self.spec.hidden_dim, prep.n_classes, dropout=self.spec.mlp_dropout
         ).to(torch.device(self._device))
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 2e1dd5c..e822124 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -100,6 +101,7 @@ class GraphSAGEMethod(TransductiveMethod):
             val_count if val_count is not None else "none",
         )
 
+        set_torch_seed(seed)
         self._model = _GraphSAGENet(
             prep.X.shape[1],
             hidden_dim=self.spec.hidden_dim,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 3abce80..5898361 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -361,6 +362,7 @@ class HGCNMethod(TransductiveMethod):
             torch.as_tensor(w, device=device_t, dtype=torch.long) for w in weight_levels
         ]
 
+        set_torch_seed(seed)
         self._model = _HGCNNet(
             prep.X.shape[1],
             self.spec.hidden_dim,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 32bd7e8..ea2da8d 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -261,6 +262,7 @@ class NGCNMethod(TransductiveMethod):
             P = adj_norm_t @ P
 
         gcn_out_dim = prep.n_classes
+        set_torch_seed(seed)
         self._model = _NGCNNet(
             prep.X.shape[1],
             hidden_dim=self.spec.hidden_dim,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 790b5b6..0130cc3 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -17,7 +17,7 @@ from modssc.graph.featurization.node2vec import (
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, torch
 
 logger = logging.getLogger(__name__)
 
@@ -124,6 +124,7 @@ class PlanetoidMethod(TransductiveMethod):
         dist = dist / dist.sum()
 
         torch_device = torch.device(self._device)
+        set_torch_seed(seed)
         emb = torch.nn.Embedding(n_nodes, self.spec.embedding_dim).to(torch_device)
         ctx = torch.nn.Embedding(n_nodes, self.spec.embedding_dim).to(torch_device)
         clf = torch.nn.Linear(self.spec.embedding_dim, prep.n_classes).to(torch_device)
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9811f3..f4509b4 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -87,6 +94,7 @@ class SGCMethod(TransductiveMethod):
             k=self.spec.k,
         ).detach()
 
+        set_torch_seed(seed)
         model = torch.nn.Linear(self._X_prop.shape[1], prep.n_classes).to(self._device)
         self._model = model
 
-- 
2.43.0


From 2a160d06767fd7b1c9e159888b524acab5596a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 33/61] fix: prepared graph data is cached by content

---
 src/modssc/transductive/methods/gnn/common.py | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/common.py b/src/modssc/transductive/methods/gnn/common.py
index 9f85637..f828561 100644
--- a/src/modssc/transductive/methods/gnn/common.py
+++ b/src/modssc/transductive/methods/gnn/common.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import hashlib
 import logging
 from collections.abc import Callable
 from dataclasses import dataclass
@@ -260,6 +261,13 @@ def prepare_data(
     )
 
 
+def _content_key(x: Any) -> tuple[Any, ...] | None:
+    if x is None:
+        return None
+    arr = np.ascontiguousarray(_as_numpy(x))
+    return arr.shape, arr.dtype.str, hashlib.sha256(arr.tobytes()).hexdigest()
+
+
 def _prep_cache_key(
     data: Any,
     *,
@@ -271,17 +279,16 @@ def _prep_cache_key(
     graph = getattr(data, "graph", None)
     edge_index = getattr(graph, "edge_index", None) if graph is not None else None
     edge_weight = getattr(graph, "edge_weight", None) if graph is not None else None
+    masks = getattr(data, "masks", None) or {}
     device_key = (
         normalize_device_name(device) if isinstance(device, str) or device is None else str(device)
     )
     return (
-        id(data),
-        id(getattr(data, "X", None)),
-        id(getattr(data, "y", None)),
-        id(graph),
-        id(edge_index),
-        id(edge_weight),
-        id(getattr(data, "masks", None)),
+        _content_key(getattr(data, "X", None)),
+        _content_key(getattr(data, "y", None)),
+        _content_key(edge_index),
+        _content_key(edge_weight),
+        tuple((str(name), _content_key(mask)) for name, mask in masks.items()),
         device_key,
         bool(add_self_loops),
         str(norm_mode),
@@ -298,7 +305,7 @@ def prepare_data_cached(
     dtype: Any | None = None,
     cache: dict[str, Any],
 ) -> PreparedData:
-    """Prepare data with a simple identity-based cache for repeated predict calls."""
+    """Prepare data with a simple content-based cache for repeated predict calls."""
     key = _prep_cache_key(
         data,
         device=device,
-- 
2.43.0


From 7472347a15f1ae17adfae4268efe4846cd66d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 34/61] fix: diffusion methods do not encode hidden labels

---
 .../transductive/methods/classic/label_propagation.py      | 6 ++++--
 src/modssc/transductive/methods/classic/label_spreading.py | 6 ++++--
 src/modssc/transductive/methods/pde/poisson_learning.py    | 7 +++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/label_propagation.py b/src/modssc/transductive/methods/classic/label_propagation.py
index cfd713e..c29e88b 100644
--- a/src/modssc/transductive/methods/classic/label_propagation.py
+++ b/src/modssc/transductive/methods/classic/label_propagation.py
@@ -101,7 +101,9 @@ def label_propagation_numpy(
         n_classes = int(np.unique(y_valid).size)
     n_classes = max(1, n_classes)
 
-    Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
+    Y = labels_to_onehot(np.where(labeled_mask, y, -1), n_classes=n_classes).astype(
+        np.float32, copy=False
+    )
     Y[~labeled_mask] = 0.0
 
     w_norm = normalize_edge_weight_numpy(
@@ -170,7 +172,7 @@ def label_propagation_torch(
     n_classes = max(1, n_classes)
 
     # Build Y in torch then reuse the numpy helper to keep consistent behavior
-    y_np = to_numpy(y)
+    y_np = np.where(to_numpy(labeled_mask).astype(bool), to_numpy(y), -1)
     Y_np = labels_to_onehot(y_np, n_classes=n_classes).astype(np.float32)
     Y_np[~to_numpy(labeled_mask).astype(bool)] = 0.0
     Y = torch.from_numpy(Y_np).to(device=y.device)
diff --git a/src/modssc/transductive/methods/classic/label_spreading.py b/src/modssc/transductive/methods/classic/label_spreading.py
index 8d8444e..bd0da53 100644
--- a/src/modssc/transductive/methods/classic/label_spreading.py
+++ b/src/modssc/transductive/methods/classic/label_spreading.py
@@ -83,7 +83,9 @@ def label_spreading_numpy(
         n_classes = int(np.unique(y_valid).size)
     n_classes = max(1, n_classes)
 
-    Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
+    Y = labels_to_onehot(np.where(labeled_mask, y, -1), n_classes=n_classes).astype(
+        np.float32, copy=False
+    )
     Y[~labeled_mask] = 0.0
 
     w_norm = normalize_edge_weight_numpy(
@@ -151,7 +153,7 @@ def label_spreading_torch(
         n_classes = int(torch.unique(y_valid).numel()) if y_valid.numel() else 0
     n_classes = max(1, n_classes)
 
-    y_np = to_numpy(y)
+    y_np = np.where(to_numpy(labeled_mask).astype(bool), to_numpy(y), -1)
     Y_np = labels_to_onehot(y_np, n_classes=n_classes).astype(np.float32)
     Y_np[~to_numpy(labeled_mask).astype(bool)] = 0.0
     Y = torch.from_numpy(Y_np).to(device=y.device)
diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index f429911..93ed82e 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -115,7 +115,9 @@ def poisson_learning_numpy(
     classes = np.unique(y[labeled_idx])
     n_classes = int(classes.size)
 
-    Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
+    Y = labels_to_onehot(np.where(labeled_mask, y, -1), n_classes=n_classes).astype(
+        np.float32, copy=False
+    )
     Y[~labeled_mask] = 0.0
 
     B = _build_sources(
@@ -189,7 +191,8 @@ def poisson_learning_torch(
     n_classes = int(classes.size)
 
     # Build Y one-hot on CPU via numpy helper then move to torch (keeps consistent encoding)
-    Y_np = labels_to_onehot(to_numpy(y_t), n_classes=n_classes).astype(np.float32, copy=False)
+    y_np = np.where(to_numpy(labeled_mask_t), to_numpy(y_t), -1)
+    Y_np = labels_to_onehot(y_np, n_classes=n_classes).astype(np.float32, copy=False)
     Y_np[~to_numpy(labeled_mask_t)] = 0.0
     B_np = _build_sources(
         Y_labeled=Y_np,
-- 
2.43.0


From 28a762a3864282758b5ed590044160f836ebdaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 35/61] fix: numpy Laplace learning keeps self-loops out of the
 Laplacian

---
 src/modssc/transductive/methods/classic/laplace_learning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/laplace_learning.py b/src/modssc/transductive/methods/classic/laplace_learning.py
index 5fd93e8..2bbe262 100644
--- a/src/modssc/transductive/methods/classic/laplace_learning.py
+++ b/src/modssc/transductive/methods/classic/laplace_learning.py
@@ -62,8 +62,7 @@ def laplace_learning_numpy(
     np.add.at(W, (dst, src), w)
 
     deg = W.sum(axis=1)
-    L = -W
-    np.fill_diagonal(L, deg)
+    L = np.diag(deg) - W
 
     labeled_idx = np.flatnonzero(labeled_mask)
     unlabeled_idx = np.flatnonzero(~labeled_mask)
-- 
2.43.0


From 9a25633dca08ab1c8afd4a9db3b9272bbc1a867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 36/61] fix: graphsage_inductive answers in the caller's label
 space

---
 src/modssc/supervised/backends/torch/graphsage_inductive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modssc/supervised/backends/torch/graphsage_inductive.py b/src/modssc/supervised/backends/torch/graphsage_inductive.py
index 558c606..8652ea5 100644
--- a/src/modssc/supervised/backends/torch/graphsage_inductive.py
+++ b/src/modssc/supervised/backends/torch/graphsage_inductive.py
@@ -148,14 +148,14 @@ class TorchGraphSAGEClassifier(TorchSupportsProbaClassifierBase):
             raise ValueError("y must be a 1D array of node labels.")
         if int(y_tensor.shape[0]) != int(x_feat.shape[0]):
             raise ValueError("X['x'] and y must contain the same number of nodes.")
-        data.y = y_tensor
+        classes, data.y = torch.unique(y_tensor, sorted=True, return_inverse=True)
 
-        num_classes = int(y_tensor.max().item()) + 1
+        num_classes = int(classes.numel())
 
         device = "cuda" if torch.cuda.is_available() and self.n_jobs != 0 else "cpu"
 
         data = data.to(device)
-        classes = torch.arange(num_classes, device=device, dtype=torch.long)
+        classes = classes.to(device)
         self._classes_t = classes
         self.classes_ = classes.detach().cpu().numpy()
 
-- 
2.43.0


From c4265aae69626c35873ba7cfca5066cb27cb7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 37/61] fix: refitting image and audio classifiers forgets the
 earlier input shape

---
 src/modssc/supervised/backends/torch/audio_cnn.py        | 2 ++
 src/modssc/supervised/backends/torch/image_cnn.py        | 2 ++
 src/modssc/supervised/backends/torch/image_pretrained.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/modssc/supervised/backends/torch/audio_cnn.py b/src/modssc/supervised/backends/torch/audio_cnn.py
index 4bc243d..7ab63de 100644
--- a/src/modssc/supervised/backends/torch/audio_cnn.py
+++ b/src/modssc/supervised/backends/torch/audio_cnn.py
@@ -134,6 +134,8 @@ class TorchAudioCNNClassifier(TorchScoresClassifierBase):
         if not isinstance(X, torch.Tensor):
             raise SupervisedValidationError("TorchAudioCNNClassifier requires torch.Tensor X.")
 
+        if allow_infer:
+            self._input_shape = None
         if X.ndim == 3:
             shape = (int(X.shape[1]), int(X.shape[2]))
             X3 = X
diff --git a/src/modssc/supervised/backends/torch/image_cnn.py b/src/modssc/supervised/backends/torch/image_cnn.py
index fd364ca..75cbbec 100644
--- a/src/modssc/supervised/backends/torch/image_cnn.py
+++ b/src/modssc/supervised/backends/torch/image_cnn.py
@@ -133,6 +133,8 @@ class TorchImageCNNClassifier(TorchScoresClassifierBase):
     def _prepare_X(self, X: Any, torch, *, allow_infer: bool) -> Any:
         if not isinstance(X, torch.Tensor):
             raise SupervisedValidationError("TorchImageCNNClassifier requires torch.Tensor X.")
+        if allow_infer:
+            self._input_shape = None
         if X.ndim == 4:
             shape = (int(X.shape[1]), int(X.shape[2]), int(X.shape[3]))
             X4 = X
diff --git a/src/modssc/supervised/backends/torch/image_pretrained.py b/src/modssc/supervised/backends/torch/image_pretrained.py
index a4f2e09..d70a2bf 100644
--- a/src/modssc/supervised/backends/torch/image_pretrained.py
+++ b/src/modssc/supervised/backends/torch/image_pretrained.py
@@ -197,6 +197,8 @@ class TorchImagePretrainedClassifier(TorchScoresClassifierBase):
             raise SupervisedValidationError(
                 "TorchImagePretrainedClassifier requires torch.Tensor X."
             )
+        if allow_infer:
+            self._input_shape = None
         if X.ndim == 4:
             if self.input_layout == "channels_last":
                 X4 = X.permute(0, 3, 1, 2)
-- 
2.43.0


From 21eab7c9ab2e777d415d3950f2e26b5910a3778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 38/61] fix: sklearn nearest neighbours accept fewer samples
 than k

---
 src/modssc/supervised/backends/sklearn/knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/sklearn/knn.py b/src/modssc/supervised/backends/sklearn/knn.py
index 122c661..be12467 100644
--- a/src/modssc/supervised/backends/sklearn/knn.py
+++ b/src/modssc/supervised/backends/sklearn/knn.py
@@ -54,7 +54,7 @@ class SklearnKNNClassifier(SklearnProbaClassifier):
         y_enc = self._set_classes_from_y(y)
 
         model = KNeighborsClassifier(
-            n_neighbors=int(self.k),
+            n_neighbors=min(int(self.k), int(X2.shape[0])),
             metric=str(self.metric),
             weights=str(self.weights),
             n_jobs=self.n_jobs,
-- 
2.43.0


From 9826680aeaecca63a9704dc3f799f5fa15e4349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 39/61] fix: null sample limits in a benchmark config are
 filled like missing ones

---
 bench/limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/limits.py b/bench/limits.py
index 89f1b40..cd59ade 100644
--- a/bench/limits.py
+++ b/bench/limits.py
@@ -152,7 +152,7 @@ def _clamp_key(
 ) -> None:
     if limit is None:
         return
-    if key not in container:
+    if container.get(key) is None:
         if set_if_missing:
             container[key] = int(limit)
             changes.append(f"{path}.{key}: set to {int(limit)}")
-- 
2.43.0


From e36ce8c22111aac4f351527c0b223c12fc4dd88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 40/61] fix: benchmark search trials respect the resource
 limits

---
 bench/orchestrators/hpo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bench/orchestrators/hpo.py b/bench/orchestrators/hpo.py
index 308e106..3969f0b 100644
--- a/bench/orchestrators/hpo.py
+++ b/bench/orchestrators/hpo.py
@@ -12,6 +12,7 @@ import numpy as np
 from modssc.hpo import Space, deep_merge
 
 from ..context import RunContext
+from ..limits import apply_limits
 from ..schema import BenchConfigError, ExperimentConfig
 from . import evaluation as eval_orch
 from . import method_inductive as inductive_orch
@@ -98,7 +99,11 @@ def run_hpo(
             n_trials += 1
             trial_start = perf_counter()
             _LOGGER.debug("HPO trial %s params=%s", trial.index, trial.params)
-            patched_dict = deep_merge(base_cfg_dict, trial.patch)
+            patched_dict, _, _ = apply_limits(
+                deep_merge(base_cfg_dict, trial.patch),
+                limits=base_cfg.limits,
+                strict=base_cfg.run.benchmark_mode,
+            )
             trial_cfg = ExperimentConfig.from_dict(patched_dict)
 
             scores = []
-- 
2.43.0


From cf0a3e4562d881396a37b2cad5a395d17ff85d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 41/61] fix: concurrent benchmark runs reserve a run directory
 of their own

---
 bench/context.py | 18 ++++++++++++++++--
 bench/main.py    |  8 +++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/bench/context.py b/bench/context.py
index 8bf4889..7876978 100644
--- a/bench/context.py
+++ b/bench/context.py
@@ -23,6 +23,21 @@ def next_available_run_dir(path: Path) -> Path:
         suffix += 1
 
 
+def reserve_run_dir(path: Path) -> Path:
+    """Create a run directory nobody else uses, also when others reserve one at the same time."""
+    base = Path(path)
+    candidate = base
+    suffix = 0
+    while True:
+        try:
+            candidate.mkdir(parents=True, exist_ok=False)
+        except FileExistsError:
+            suffix += 1
+            candidate = base.with_name(f"{base.name}__r{suffix:02d}")
+        else:
+            return candidate
+
+
 @dataclass
 class RunContext:
     name: str
@@ -65,8 +80,7 @@ class RunContext:
 
     def ensure_dirs(self) -> None:
         self.output_dir.mkdir(parents=True, exist_ok=True)
-        self.run_dir = next_available_run_dir(self.run_dir)
-        self.run_dir.mkdir(parents=True, exist_ok=False)
+        self.run_dir = reserve_run_dir(self.run_dir)
 
     def write_config_copy(self, data: dict[str, Any]) -> None:
         dump_yaml(data, self.run_dir / "config.yaml")
diff --git a/bench/main.py b/bench/main.py
index 92c4335..bb5d62c 100644
--- a/bench/main.py
+++ b/bench/main.py
@@ -22,7 +22,7 @@ from modssc.sampling.result import SamplingResult
 from modssc.transductive.registry import get_method_class as get_transductive_method_class
 from modssc.transductive.registry import get_method_info as get_transductive_method_info
 
-from .context import RunContext, next_available_run_dir
+from .context import RunContext, next_available_run_dir, reserve_run_dir
 from .errors import BenchRuntimeError, extract_error_code
 from .limits import apply_limits
 from .orchestrators import augmentation as aug_orch
@@ -515,14 +515,16 @@ def _sync_ctx_run_identity(ctx: RunContext, *, run_id: str) -> None:
     else:
         suffix = old_run_dir.name.rsplit("-", 1)[-1]
     desired_dir = ctx.output_dir / f"{ctx.name}-{run_id}-{suffix}"
-    new_run_dir = next_available_run_dir(desired_dir)
+    new_run_dir = reserve_run_dir(desired_dir)
     if new_run_dir != desired_dir:
         _LOGGER.warning(
             "Run directory collision while updating run_id; using alternate path: %s",
             new_run_dir,
         )
 
-    old_run_dir.rename(new_run_dir)
+    for child in sorted(old_run_dir.iterdir()):
+        child.rename(new_run_dir / child.name)
+    old_run_dir.rmdir()
     ctx.run_id = str(run_id)
     ctx.run_dir = new_run_dir
     _LOGGER.info("Run identity updated after config mutation: %s -> %s", old_run_id, run_id)
-- 
2.43.0


From 7d0bf812fa61a8ce670c8f32badbc52860492d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 42/61] fix: concurrent seed sweeps reserve a sweep directory
 of their own

---
 bench/context.py | 14 --------------
 bench/main.py    |  4 ++--
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/bench/context.py b/bench/context.py
index 7876978..280f4f5 100644
--- a/bench/context.py
+++ b/bench/context.py
@@ -9,20 +9,6 @@ from .utils.hashing import derive_seed
 from .utils.io import dump_yaml, write_json
 
 
-def next_available_run_dir(path: Path) -> Path:
-    """Return a non-existing run directory path without deleting existing outputs."""
-    candidate = Path(path)
-    if not candidate.exists():
-        return candidate
-
-    suffix = 1
-    while True:
-        trial = candidate.with_name(f"{candidate.name}__r{suffix:02d}")
-        if not trial.exists():
-            return trial
-        suffix += 1
-
-
 def reserve_run_dir(path: Path) -> Path:
     """Create a run directory nobody else uses, also when others reserve one at the same time."""
     base = Path(path)
diff --git a/bench/main.py b/bench/main.py
index bb5d62c..2f1c9ae 100644
--- a/bench/main.py
+++ b/bench/main.py
@@ -22,7 +22,7 @@ from modssc.sampling.result import SamplingResult
 from modssc.transductive.registry import get_method_class as get_transductive_method_class
 from modssc.transductive.registry import get_method_info as get_transductive_method_info
 
-from .context import RunContext, next_available_run_dir, reserve_run_dir
+from .context import RunContext, reserve_run_dir
 from .errors import BenchRuntimeError, extract_error_code
 from .limits import apply_limits
 from .orchestrators import augmentation as aug_orch
@@ -1044,7 +1044,7 @@ def run_experiment(config_path: Path, *, num_runs: int | None = None) -> int:
         return _run_experiment_single(config_path, raw=raw, cfg=cfg).code
 
     sweep_timestamp = datetime.now(UTC).strftime("%Y%m%dT%H%M%SZ")
-    sweep_root = next_available_run_dir(
+    sweep_root = reserve_run_dir(
         Path(cfg.run.output_dir).expanduser().resolve() / f"{cfg.run.name}-sweep-{sweep_timestamp}"
     )
     _LOGGER.info("Seed sweep output dir: %s", sweep_root)
-- 
2.43.0


From 089072ed60cddbb3b621b98d27d7c2b75a5af787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 43/61] fix: seed sweeps count runs that left no report as
 failed

---
 bench/main.py                    | 15 +++++++--------
 bench/orchestrators/reporting.py |  3 ++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bench/main.py b/bench/main.py
index 2f1c9ae..0b4282f 100644
--- a/bench/main.py
+++ b/bench/main.py
@@ -1077,14 +1077,13 @@ def run_experiment(config_path: Path, *, num_runs: int | None = None) -> int:
                     "seed sweep aborted due to failed run with fail_fast=true",
                 )
 
-    if run_results:
-        report_orch.write_seed_sweep_summary(
-            output_dir=sweep_root,
-            config_path=config_path,
-            base_name=cfg.run.name,
-            requested_seeds=seeds,
-            run_json_paths=[result.run_json_path for result in run_results],
-        )
+    report_orch.write_seed_sweep_summary(
+        output_dir=sweep_root,
+        config_path=config_path,
+        base_name=cfg.run.name,
+        requested_seeds=seeds,
+        run_json_paths=[result.run_json_path for result in run_results],
+    )
 
     if failures:
         _LOGGER.warning("Seed sweep finished with failures: %s/%s", failures, len(seeds))
diff --git a/bench/orchestrators/reporting.py b/bench/orchestrators/reporting.py
index 6c74638..4a30296 100644
--- a/bench/orchestrators/reporting.py
+++ b/bench/orchestrators/reporting.py
@@ -161,7 +161,8 @@ def write_seed_sweep_summary(
             },
         )
 
-    failed_count = len(run_entries) - len(successful_reports)
+    # runs that left no report failed as well
+    failed_count = len(requested_seeds) - len(successful_reports)
     if failed_count == 0:
         status = "success"
     elif successful_reports:
-- 
2.43.0


From aaf41fe9b67f8953ee5846eb2791d86495075407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 44/61] fix: seed sweep summaries accept metrics that are not
 finite

---
 bench/orchestrators/reporting.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bench/orchestrators/reporting.py b/bench/orchestrators/reporting.py
index 4a30296..e7d91e2 100644
--- a/bench/orchestrators/reporting.py
+++ b/bench/orchestrators/reporting.py
@@ -4,6 +4,7 @@ import json
 import logging
 from dataclasses import asdict
 from datetime import UTC, datetime
+from math import isfinite, nan
 from pathlib import Path
 from statistics import fmean, pstdev
 from time import perf_counter
@@ -95,6 +96,18 @@ def _iter_numeric_metric_leaves(
     return []
 
 
+def _mean(values: list[float]) -> float:
+    # fmean rejects infinities of both signs
+    return float(fmean(values)) if all(map(isfinite, values)) else sum(values) / len(values)
+
+
+def _std(values: list[float]) -> float:
+    # pstdev rejects NaN and infinities
+    if not all(map(isfinite, values)):
+        return nan
+    return float(pstdev(values)) if len(values) > 1 else 0.0
+
+
 def _set_nested(mapping: dict[str, Any], path: tuple[str, ...], value: Any) -> None:
     if not path:
         raise ValueError("path must be non-empty")
@@ -153,8 +166,8 @@ def write_seed_sweep_summary(
             metric_path,
             {
                 "count": len(values),
-                "mean": float(fmean(values)),
-                "std": float(pstdev(values)) if len(values) > 1 else 0.0,
+                "mean": _mean(values),
+                "std": _std(values),
                 "min": float(min(values)),
                 "max": float(max(values)),
                 "values": [float(v) for v in values],
-- 
2.43.0


From c27a32d9f537f4e2fbd78465d9dcfed850932aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 45/61] fix: transductive runs hide the labels of test and
 dropped nodes from the method

---
 bench/orchestrators/method_transductive.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bench/orchestrators/method_transductive.py b/bench/orchestrators/method_transductive.py
index c969d1f..bceb193 100644
--- a/bench/orchestrators/method_transductive.py
+++ b/bench/orchestrators/method_transductive.py
@@ -262,15 +262,14 @@ def run(
 
     y_obs = _to_numpy(y_all).astype(np.int64, copy=True)
     if y_obs.ndim == 1 and y_obs.shape[0] == labeled_mask.shape[0]:
-        unlabeled_mask = masks.get("unlabeled_mask")
-        if unlabeled_mask is None:
-            y_obs[~labeled_mask] = -1
-        else:
-            unlabeled_mask = np.asarray(unlabeled_mask, dtype=bool)
-            if unlabeled_mask.shape != y_obs.shape:
-                y_obs[~labeled_mask] = -1
-            else:
-                y_obs[unlabeled_mask] = -1
+        # Only labeled nodes and those used for model selection may show their labels.
+        visible = labeled_mask.copy()
+        val_mask = masks.get("val_mask")
+        if val_mask is not None:
+            val_mask = np.asarray(val_mask, dtype=bool)
+            if val_mask.shape == visible.shape:
+                visible |= val_mask
+        y_obs[~visible] = -1
 
     data = NodeDataset(
         X=X_all,
-- 
2.43.0


From 7582cc1c82dae01f55a4ca46967ab795d7d7f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 46/61] fix: benchmark scores read a column per known label as
 those labels

---
 bench/orchestrators/evaluation.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/bench/orchestrators/evaluation.py b/bench/orchestrators/evaluation.py
index bea37d4..340681c 100644
--- a/bench/orchestrators/evaluation.py
+++ b/bench/orchestrators/evaluation.py
@@ -56,6 +56,17 @@ def _log_split_metrics(
     _LOGGER.info(message, *args)
 
 
+def _predicted_labels(scores: np.ndarray, y_known: Any | None) -> np.ndarray:
+    """Labels meant by scores: one column per known label, or one per label 0..max."""
+    y_pred = predict_labels(scores)
+    if y_known is None or scores.ndim != 2:
+        return y_pred
+    classes = np.unique(labels_1d(y_known))
+    if classes.size == 0 or int(scores.shape[1]) != int(classes.size):
+        return y_pred
+    return classes[y_pred]
+
+
 def _split_data(
     pre: PreprocessResult,
     sampling: SamplingResult,
@@ -252,6 +263,13 @@ def evaluate_inductive(
         list(metrics),
         bool(strict),
     )
+    y_known = None
+    if "train_labeled" in sampling.indices:
+        y_known = select_rows(
+            _labels_for_split(pre, "train", pre.dataset.train),
+            np.asarray(sampling.indices["train_labeled"], dtype=np.int64),
+            context="evaluation.train_labeled.y",
+        )
     results: dict[str, dict[str, float]] = {}
     for split in report_splits:
         X, y = _split_data(pre, sampling, split=split)
@@ -293,7 +311,7 @@ def evaluate_inductive(
 
         scores_np = to_numpy(scores)
         y_true = labels_1d(y)
-        y_pred = predict_labels(scores_np)
+        y_pred = _predicted_labels(scores_np, y_known)
         results[split] = compute_metrics(y_true, y_pred, metrics)
         _log_split_metrics(
             kind="inductive",
@@ -326,7 +344,13 @@ def evaluate_transductive(
     if isinstance(meta, Mapping) and "y_true" in meta:
         y_true_raw = meta["y_true"]
     y_true = labels_1d(y_true_raw)
-    y_pred_all = predict_labels(scores_np)
+    labeled_mask = masks.get("labeled_mask")
+    y_known = None
+    if labeled_mask is not None:
+        labeled_mask = np.asarray(labeled_mask, dtype=bool)
+        if labeled_mask.shape == y_true.shape:
+            y_known = y_true[labeled_mask]
+    y_pred_all = _predicted_labels(scores_np, y_known)
 
     results: dict[str, dict[str, float]] = {}
     for split in report_splits:
-- 
2.43.0


From 5630ffa461367f8fee27a630c404a30b66dc7613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 47/61] fix: selecting rows of a graph sample keeps its edge
 weights with their edges

---
 bench/orchestrators/slicing.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/bench/orchestrators/slicing.py b/bench/orchestrators/slicing.py
index bc5eb09..ce3591d 100644
--- a/bench/orchestrators/slicing.py
+++ b/bench/orchestrators/slicing.py
@@ -36,7 +36,13 @@ def _infer_num_nodes(X: Mapping[str, Any]) -> int | None:
         return None
 
 
-def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None) -> Any:
+_EDGE_KEYS = ("edge_weight", "edge_attr")
+
+
+def _slice_edge_index(
+    edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None
+) -> tuple[Any, np.ndarray]:
+    """Edges among the kept nodes, and which of the given edges those are."""
     try:
         import importlib
 
@@ -57,11 +63,12 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
 
     subset = torch.as_tensor(idx, dtype=torch.long, device=device)
     try:
-        sub_ei, _ = pyg_utils.subgraph(
+        sub_ei, _, edge_mask = pyg_utils.subgraph(
             subset,
             ei,
             relabel_nodes=True,
             num_nodes=None if num_nodes is None else int(num_nodes),
+            return_edge_mask=True,
         )
     except (RuntimeError, TypeError, ValueError) as exc:
         raise BenchRuntimeError(
@@ -69,9 +76,10 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
             f"failed to slice edge_index with relabel_nodes=True: {exc}",
         ) from exc
 
+    kept = np.flatnonzero(edge_mask.detach().cpu().numpy()).astype(np.int64)
     if is_torch_tensor(edge_index):
-        return sub_ei
-    return sub_ei.detach().cpu().numpy()
+        return sub_ei, kept
+    return sub_ei.detach().cpu().numpy(), kept
 
 
 def _slice_tensor(x: Any, idx: np.ndarray) -> Any:
@@ -113,11 +121,17 @@ def select_rows(
     if isinstance(X, Mapping):
         out: dict[str, Any] = {}
         num_nodes = _infer_num_nodes(X)
+        edge_idx: np.ndarray | None = None
         if "edge_index" in X:
-            out["edge_index"] = _slice_edge_index(X["edge_index"], idx_arr, num_nodes=num_nodes)
+            out["edge_index"], edge_idx = _slice_edge_index(
+                X["edge_index"], idx_arr, num_nodes=num_nodes
+            )
         for k, v in X.items():
             if k == "edge_index":
                 continue
+            if k in _EDGE_KEYS and edge_idx is not None and v is not None:
+                out[k] = select_rows(v, edge_idx, context=context)
+                continue
             if is_torch_tensor(v):
                 if _should_slice_by_dim0(v, idx_arr):
                     out[k] = _slice_tensor(v, idx_arr)
-- 
2.43.0


From 028d617bfaea254b0b070851a8337e2fb44b1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 48/61] fix: keys that are not strings are reported as
 configuration errors

---
 bench/schema.py         | 6 +++---
 src/modssc/hpo/space.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bench/schema.py b/bench/schema.py
index 20bd6e4..7df473a 100644
--- a/bench/schema.py
+++ b/bench/schema.py
@@ -24,7 +24,7 @@ def _as_mapping(obj: Any, *, name: str) -> Mapping[str, Any]:
 def _check_unknown(data: Mapping[str, Any], allowed: set[str], *, name: str) -> None:
     extra = set(data.keys()) - allowed
     if extra:
-        raise BenchConfigError(f"Unknown keys in {name}: {sorted(extra)}")
+        raise BenchConfigError(f"Unknown keys in {name}: {sorted(extra, key=str)}")
 
 
 def _require_str(data: Mapping[str, Any], key: str, *, name: str) -> str:
@@ -608,9 +608,9 @@ def _validate_search_space(space: Mapping[str, Any]) -> None:
             if "dist" in node:
                 _check_leaf(path)
                 return
+            if any(not isinstance(key, str) or not key for key in node):
+                raise BenchConfigError("search.space keys must be non-empty strings")
             for key in sorted(node.keys()):
-                if not isinstance(key, str) or not key:
-                    raise BenchConfigError("search.space keys must be non-empty strings")
                 _walk(node[key], path + (key,))
             return
         raise BenchConfigError("search.space leaves must be lists or dist specs")
diff --git a/src/modssc/hpo/space.py b/src/modssc/hpo/space.py
index bcc22b9..59c0c2e 100644
--- a/src/modssc/hpo/space.py
+++ b/src/modssc/hpo/space.py
@@ -50,7 +50,7 @@ class Space:
                     allowed = {"dist", "low", "high", "values"}
                     extra = set(node.keys()) - allowed
                     if extra:
-                        raise HpoError(f"Unknown keys in dist spec: {sorted(extra)}")
+                        raise HpoError(f"Unknown keys in dist spec: {sorted(extra, key=str)}")
                     dist = node.get("dist")
                     low = node.get("low")
                     high = node.get("high")
@@ -65,9 +65,9 @@ class Space:
                     leaves.append(_Leaf(prefix, leaf_values, spec))
                     return
 
+                if any(not isinstance(key, str) or not key for key in node):
+                    raise HpoError("space keys must be non-empty strings")
                 for key in sorted(node.keys()):
-                    if not isinstance(key, str) or not key:
-                        raise HpoError("space keys must be non-empty strings")
                     _walk(node[key], prefix + (key,))
                 return
 
-- 
2.43.0


From f00b0d6ef43a9b040db6b2a7bab7cadd78bccb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 49/61] fix: configuration values of the wrong kind are refused
 instead of converted

---
 bench/schema.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/bench/schema.py b/bench/schema.py
index 7df473a..1effadc 100644
--- a/bench/schema.py
+++ b/bench/schema.py
@@ -54,11 +54,23 @@ def _optional_int(data: Mapping[str, Any], key: str) -> int | None:
     val = data.get(key)
     if val is None:
         return None
-    if not isinstance(val, int):
+    if not isinstance(val, int) or isinstance(val, bool):
         raise BenchConfigError(f"{key} must be an int when provided")
     return int(val)
 
 
+def _run_seed(data: Mapping[str, Any], *, name: str) -> int:
+    val = data.get("seed", 0)
+    if isinstance(val, int) and not isinstance(val, bool):
+        return val
+    if isinstance(val, str):  # environment placeholders expand to strings
+        try:
+            return int(val)
+        except ValueError:
+            pass
+    raise BenchConfigError(f"{name}.seed must be an int")
+
+
 def _optional_seed_list(data: Mapping[str, Any], key: str, *, name: str) -> list[int] | None:
     val = data.get(key)
     if val is None:
@@ -70,7 +82,7 @@ def _optional_seed_list(data: Mapping[str, Any], key: str, *, name: str) -> list
     out: list[int] = []
     seen: set[int] = set()
     for i, item in enumerate(val):
-        if not isinstance(item, int):
+        if not isinstance(item, int) or isinstance(item, bool):
             raise BenchConfigError(f"{name}.{key}[{i}] must be an int")
         seed = int(item)
         if seed in seen:
@@ -296,8 +308,8 @@ class ExperimentConfig:
             )
         run_cfg = RunConfig(
             name=_require_str(run, "name", name="run"),
-            seed=int(run.get("seed", 0)),
-            output_dir=str(run.get("output_dir", "modssc_cache/output")),
+            seed=_run_seed(run, name="run"),
+            output_dir=_optional_str(run, "output_dir") or "modssc_cache/output",
             seeds=_optional_seed_list(run, "seeds", name="run"),
             fail_fast=fail_fast,
             log_level=_optional_str(run, "log_level"),
@@ -410,7 +422,7 @@ class ExperimentConfig:
             augmentation_cfg = AugmentationConfig(
                 enabled=_optional_bool(aug, "enabled", default=True),
                 seed=_optional_int(aug, "seed"),
-                mode=str(aug.get("mode", "fixed")),
+                mode=_optional_str(aug, "mode") or "fixed",
                 weak=_optional_mapping(aug, "weak"),
                 strong=_optional_mapping(aug, "strong"),
                 modality=_optional_str(aug, "modality"),
@@ -424,8 +436,8 @@ class ExperimentConfig:
         device_raw = _as_mapping(method.get("device", {}), name="method.device")
         _check_unknown(device_raw, {"device", "dtype", "resolved_device"}, name="method.device")
         device = DeviceConfig(
-            device=str(device_raw.get("device", "cpu")),
-            dtype=str(device_raw.get("dtype", "float32")),
+            device=_optional_str(device_raw, "device") or "cpu",
+            dtype=_optional_str(device_raw, "dtype") or "float32",
             resolved_device=_optional_str(device_raw, "resolved_device"),
         )
         model_cfg = None
-- 
2.43.0


From 6bf136a06a44776d532a658f3495a5854bb1540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 50/61] fix: the ids of built-in methods are taken before they
 are loaded

---
 src/modssc/inductive/registry.py    | 14 +++++++++++++-
 src/modssc/transductive/registry.py | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/registry.py b/src/modssc/inductive/registry.py
index 274ae98..2b2778c 100644
--- a/src/modssc/inductive/registry.py
+++ b/src/modssc/inductive/registry.py
@@ -27,7 +27,18 @@ class MethodRef:
 
 
 _REGISTRY: dict[str, MethodRef] = {}
-register_method = make_register_method(registry=_REGISTRY, ref_factory=MethodRef)
+_register_ref = make_register_method(registry=_REGISTRY, ref_factory=MethodRef)
+
+
+def register_method(
+    method_id: str,
+    import_path: str,
+    *,
+    status: Literal["implemented", "planned"] = "implemented",
+) -> None:
+    """Register a method; the ids of built-in methods are taken."""
+    register_builtin_methods()
+    _register_ref(method_id, import_path, status=status)
 
 
 def register_builtin_methods() -> None:
@@ -35,6 +46,7 @@ def register_builtin_methods() -> None:
 
     This function is idempotent and safe to call multiple times.
     """
+    register_method = _register_ref
     register_method(
         "supervised",
         "modssc.inductive.methods.supervised:SupervisedMethod",
diff --git a/src/modssc/transductive/registry.py b/src/modssc/transductive/registry.py
index 46c34b4..9d42c2c 100644
--- a/src/modssc/transductive/registry.py
+++ b/src/modssc/transductive/registry.py
@@ -27,7 +27,18 @@ class MethodRef:
 
 
 _REGISTRY: dict[str, MethodRef] = {}
-register_method = make_register_method(registry=_REGISTRY, ref_factory=MethodRef)
+_register_ref = make_register_method(registry=_REGISTRY, ref_factory=MethodRef)
+
+
+def register_method(
+    method_id: str,
+    import_path: str,
+    *,
+    status: Literal["implemented", "planned"] = "implemented",
+) -> None:
+    """Register a method; the ids of built-in methods are taken."""
+    register_builtin_methods()
+    _register_ref(method_id, import_path, status=status)
 
 
 def register_builtin_methods() -> None:
@@ -35,6 +46,7 @@ def register_builtin_methods() -> None:
 
     This function is idempotent and safe to call multiple times.
     """
+    register_method = _register_ref
     # Classic diffusion
     register_method(
         "label_propagation",
-- 
2.43.0


From 5bfbd47e1f2e92957040651ab1ecfd4cb0303acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 51/61] fix: a method's import path must name a module and a
 class

---
 src/modssc/utils/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/utils/registry.py b/src/modssc/utils/registry.py
index 84b750a..902b346 100644
--- a/src/modssc/utils/registry.py
+++ b/src/modssc/utils/registry.py
@@ -17,7 +17,8 @@ def register_method_ref(
 ) -> None:
     if not method_id or not isinstance(method_id, str):
         raise ValueError("method_id must be a non-empty string")
-    if ":" not in import_path:
+    parts = import_path.split(":") if isinstance(import_path, str) else []
+    if len(parts) != 2 or not all(parts):
         raise ValueError("import_path must be of the form 'pkg.module:ClassName'")
     existing = registry.get(method_id)
     if existing is not None and existing.import_path != import_path:
-- 
2.43.0


From b5adfc2f8f8f5f8531998deb761d87d506f28320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 52/61] fix: registering a classifier before the built-in ones
 are loaded keeps them

---
 src/modssc/supervised/registry.py | 42 +++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/modssc/supervised/registry.py b/src/modssc/supervised/registry.py
index 6608d34..32d1c5c 100644
--- a/src/modssc/supervised/registry.py
+++ b/src/modssc/supervised/registry.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Iterable
 from dataclasses import replace
+from threading import Lock
 
 from modssc.supervised.errors import UnknownBackendError, UnknownClassifierError
 from modssc.supervised.registry_data import BUILTIN_CLASSIFIERS
@@ -9,6 +10,7 @@ from modssc.supervised.types import BackendSpec, ClassifierSpec
 
 _REGISTRY: dict[str, ClassifierSpec] = {}
 _BOOTSTRAPPED = False
+_BOOTSTRAP_LOCK = Lock()
 
 
 def register_classifier(
@@ -17,6 +19,11 @@ def register_classifier(
     description: str,
     preferred_backends: tuple[str, ...] = ("sklearn", "numpy"),
 ) -> None:
+    ensure_bootstrap()
+    _add_classifier(key=key, description=description, preferred_backends=preferred_backends)
+
+
+def _add_classifier(*, key: str, description: str, preferred_backends: tuple[str, ...]) -> None:
     if key in _REGISTRY:
         existing = _REGISTRY[key]
         if existing.description != description or existing.preferred_backends != preferred_backends:
@@ -38,6 +45,26 @@ def register_backend(
     required_extra: str | None = None,
     supports_gpu: bool = False,
     notes: str = "",
+) -> None:
+    ensure_bootstrap()
+    _add_backend(
+        classifier_id=classifier_id,
+        backend=backend,
+        factory=factory,
+        required_extra=required_extra,
+        supports_gpu=supports_gpu,
+        notes=notes,
+    )
+
+
+def _add_backend(
+    *,
+    classifier_id: str,
+    backend: str,
+    factory: str,
+    required_extra: str | None,
+    supports_gpu: bool,
+    notes: str,
 ) -> None:
     if classifier_id not in _REGISTRY:
         raise UnknownClassifierError(classifier_id)
@@ -56,13 +83,13 @@ def register_backend(
 
 
 def _register_builtin_classifier(entry: dict[str, object]) -> None:
-    register_classifier(
+    _add_classifier(
         key=str(entry["key"]),
         description=str(entry["description"]),
         preferred_backends=tuple(entry["preferred_backends"]),
     )
     for backend in entry["backends"]:
-        register_backend(
+        _add_backend(
             classifier_id=str(entry["key"]),
             backend=str(backend["backend"]),
             factory=str(backend["factory"]),
@@ -74,11 +101,12 @@ def _register_builtin_classifier(entry: dict[str, object]) -> None:
 
 def ensure_bootstrap() -> None:
     global _BOOTSTRAPPED
-    if _BOOTSTRAPPED:
-        return
-    for entry in BUILTIN_CLASSIFIERS:
-        _register_builtin_classifier(entry)
-    _BOOTSTRAPPED = True
+    with _BOOTSTRAP_LOCK:
+        if _BOOTSTRAPPED:
+            return
+        for entry in BUILTIN_CLASSIFIERS:
+            _register_builtin_classifier(entry)
+        _BOOTSTRAPPED = True
 
 
 def list_classifiers() -> list[str]:
-- 
2.43.0


From ffcbe07ba3fa54bdc09eb966a6cb65763ab63a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 53/61] fix: an augmentation op cannot take the id of a
 built-in op

---
 src/modssc/data_augmentation/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modssc/data_augmentation/registry.py b/src/modssc/data_augmentation/registry.py
index ad430f8..795c458 100644
--- a/src/modssc/data_augmentation/registry.py
+++ b/src/modssc/data_augmentation/registry.py
@@ -55,6 +55,9 @@ def register_op(op_id: str) -> Callable[[type[AugmentationOp]], type[Augmentatio
         existing = _RUNTIME_OPS.get(op_id)
         if existing is not None and existing is not cls:
             raise DataAugmentationValidationError(f"Duplicate op_id: {op_id}")
+        builtin = _BUILTIN_OPS.get(op_id)
+        if builtin is not None and builtin[0] != f"{cls.__module__}:{cls.__qualname__}":
+            raise DataAugmentationValidationError(f"Duplicate op_id: {op_id}")
         if not hasattr(cls, "op_id") or not hasattr(cls, "modality"):
             raise DataAugmentationValidationError(
                 f"Op class {cls.__name__} must define 'op_id' and 'modality'."
-- 
2.43.0


From d92d7e9f049471ad95d80387b255ee674d86ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 54/61] fix: editing a classifier's description does not edit
 the registry

---
 src/modssc/supervised/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/types.py b/src/modssc/supervised/types.py
index 2b34ae5..6f50759 100644
--- a/src/modssc/supervised/types.py
+++ b/src/modssc/supervised/types.py
@@ -40,5 +40,5 @@ class ClassifierSpec:
             "key": self.key,
             "description": self.description,
             "preferred_backends": list(self.preferred_backends),
-            "backends": {k: vars(v) for k, v in self.backends.items()},
+            "backends": {k: dict(vars(v)) for k, v in self.backends.items()},
         }
-- 
2.43.0


From d7605f9ef619fc4a26c3538ad6b7d6f36c3a7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 55/61] fix: files kept under a directory called "source"
 follow a moved dataset cache

---
 src/modssc/data_loader/services/service.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 85d20d9..3624325 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -82,7 +82,14 @@ def _rebase_cached_path(value: str, *, current_source_root: Path) -> str:
     if "source" not in path.parts:
         return value
 
-    source_idx = max(idx for idx, part in enumerate(path.parts) if part == "source")
+    # <cache>/raw/<provider>/<dataset>/<version>/source: a file below it may itself be kept in a
+    # directory called "source" (a class label, say), so look for the whole tail first.
+    tree = current_source_root.parts[-5:]
+    starts = [i for i in range(len(path.parts)) if path.parts[i : i + len(tree)] == tree]
+    if starts:
+        source_idx = starts[0] + len(tree) - 1
+    else:
+        source_idx = max(idx for idx, part in enumerate(path.parts) if part == "source")
     relative_tail = Path(*path.parts[source_idx + 1 :])
     if not relative_tail.parts:
         return value
-- 
2.43.0


From 554cc1d8c20bbbc7867a9ad71193c0c44846d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 56/61] fix: a step without a name in a plan file is refused
 instead of being called None

---
 src/modssc/preprocess/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/plan.py b/src/modssc/preprocess/plan.py
index cee460c..a4a86c2 100644
--- a/src/modssc/preprocess/plan.py
+++ b/src/modssc/preprocess/plan.py
@@ -65,7 +65,7 @@ def load_plan(path: str | Path) -> PreprocessPlan:
     for item in steps_raw:
         if not isinstance(item, Mapping):
             raise ValueError("Each step must be a mapping")
-        step_id = str(item.get("id") or item.get("step_id"))
+        step_id = str(item.get("id") or item.get("step_id") or "")
         if not step_id:
             raise ValueError("Each step must define 'id'")
         params = item.get("params", {}) or {}
-- 
2.43.0


From ac8ab0bb8ccde80f00b8c00a264fa64c509e01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 57/61] fix: a missing extra is reported as such, not as a
 FrozenInstanceError, when raised inside a with block

---
 src/modssc/data_loader/errors.py  | 2 +-
 src/modssc/inductive/errors.py    | 2 +-
 src/modssc/preprocess/errors.py   | 2 +-
 src/modssc/transductive/errors.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modssc/data_loader/errors.py b/src/modssc/data_loader/errors.py
index f6aa37b..7f9428f 100644
--- a/src/modssc/data_loader/errors.py
+++ b/src/modssc/data_loader/errors.py
@@ -24,7 +24,7 @@ class ProviderNotFoundError(DataLoaderError):
         super().__init__(f"Unknown provider: {provider!r}")
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(MissingExtraErrorMessageMixin, DataLoaderError):
     """Raised when an optional dependency (extra) required by a provider is missing."""
 
diff --git a/src/modssc/inductive/errors.py b/src/modssc/inductive/errors.py
index a5cb893..66105ad 100644
--- a/src/modssc/inductive/errors.py
+++ b/src/modssc/inductive/errors.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from modssc.dependencies.errors import PackageOptionalDependencyMessageMixin
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(PackageOptionalDependencyMessageMixin, ImportError):
     """Raised when an optional dependency (extra) is required but missing."""
 
diff --git a/src/modssc/preprocess/errors.py b/src/modssc/preprocess/errors.py
index f324cb0..feed0cb 100644
--- a/src/modssc/preprocess/errors.py
+++ b/src/modssc/preprocess/errors.py
@@ -17,7 +17,7 @@ class PreprocessCacheError(PreprocessError):
     """Raised when cached artifacts are missing, corrupted, or inconsistent."""
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(MissingExtraErrorMessageMixin, PreprocessError):
     """Raised when an optional dependency required by a step/model is missing."""
 
diff --git a/src/modssc/transductive/errors.py b/src/modssc/transductive/errors.py
index 26ff7cb..fdcd821 100644
--- a/src/modssc/transductive/errors.py
+++ b/src/modssc/transductive/errors.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from modssc.dependencies.errors import PackageOptionalDependencyMessageMixin
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(PackageOptionalDependencyMessageMixin, ImportError):
     """Raised when an optional dependency (extra) is required but missing."""
 
-- 
2.43.0


From ca7a638284a7f908da74e56e9dc139e65d898839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:19 +0000
Subject: [PATCH 58/61] fix: Euclidean graph distances are computed in float64,
 so they hold away from the origin

---
 .../construction/backends/numpy_backend.py      | 14 ++++++++------
 src/modssc/graph/construction/schemes/anchor.py | 17 +++++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/modssc/graph/construction/backends/numpy_backend.py b/src/modssc/graph/construction/backends/numpy_backend.py
index ff63952..f3f7a46 100644
--- a/src/modssc/graph/construction/backends/numpy_backend.py
+++ b/src/modssc/graph/construction/backends/numpy_backend.py
@@ -101,8 +101,9 @@ def knn_edges_numpy(
         Xn = _safe_l2_normalize(X.astype(np.float32, copy=False))
         norms = None
     else:
-        Xn = X.astype(np.float32, copy=False)
-        norms = np.sum(Xn * Xn, axis=1).astype(np.float32)
+        # float64: in float32 the expansion of the squared distance cancels away from the origin
+        Xn = X.astype(np.float64, copy=False)
+        norms = np.sum(Xn * Xn, axis=1)
 
     k_eff = min(int(k), n) if include_self else min(int(k), max(n - 1, 0))
     if k_eff <= 0:
@@ -133,7 +134,7 @@ def knn_edges_numpy(
                 assert norms is not None
                 dot = Xi @ Xn.T
                 dist2 = norms[start:end, None] + norms[None, :] - 2.0 * dot
-                dist2 = np.maximum(dist2, 0.0).astype(np.float32)
+                dist2 = np.maximum(dist2, 0.0)
 
             if not include_self:
                 rows = np.arange(start, end, dtype=np.int64) - start
@@ -213,8 +214,9 @@ def epsilon_edges_numpy(
         Xn = _safe_l2_normalize(X.astype(np.float32, copy=False))
         norms = None
     else:
-        Xn = X.astype(np.float32, copy=False)
-        norms = np.sum(Xn * Xn, axis=1).astype(np.float32)
+        # float64: in float32 the expansion of the squared distance cancels away from the origin
+        Xn = X.astype(np.float64, copy=False)
+        norms = np.sum(Xn * Xn, axis=1)
 
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
@@ -240,7 +242,7 @@ def epsilon_edges_numpy(
                 assert norms is not None
                 dot = Xi @ Xn.T
                 dist2 = norms[start:end, None] + norms[None, :] - 2.0 * dot
-                dist2 = np.maximum(dist2, 0.0).astype(np.float32)
+                dist2 = np.maximum(dist2, 0.0)
 
             if not include_self:
                 rows = np.arange(start, end, dtype=np.int64) - start
diff --git a/src/modssc/graph/construction/schemes/anchor.py b/src/modssc/graph/construction/schemes/anchor.py
index df941b4..3f42ff3 100644
--- a/src/modssc/graph/construction/schemes/anchor.py
+++ b/src/modssc/graph/construction/schemes/anchor.py
@@ -66,10 +66,11 @@ def _knn_query_numpy(
         norms_q = None
         norms_r = None
     else:
-        qn = q
-        rn = r
-        norms_q = np.sum(qn * qn, axis=1).astype(np.float32)
-        norms_r = np.sum(rn * rn, axis=1).astype(np.float32)
+        # float64: in float32 the expansion of the squared distance cancels away from the origin
+        qn = q.astype(np.float64)
+        rn = r.astype(np.float64)
+        norms_q = np.sum(qn * qn, axis=1)
+        norms_r = np.sum(rn * rn, axis=1)
 
     n_q = int(qn.shape[0])
     k_eff = min(int(k), int(rn.shape[0]))
@@ -86,7 +87,7 @@ def _knn_query_numpy(
             assert norms_q is not None and norms_r is not None
             dot = Qi @ rn.T
             dist2 = norms_q[start:end, None] + norms_r[None, :] - 2.0 * dot
-            dist2 = np.maximum(dist2, 0.0).astype(np.float32)
+            dist2 = np.maximum(dist2, 0.0)
             dist = np.sqrt(dist2).astype(np.float32)
 
         part_idx = np.argpartition(dist, kth=k_eff - 1, axis=1)[:, :k_eff]
@@ -198,8 +199,8 @@ def anchor_edges(
     if metric == "cosine":
         Xn = _safe_l2_normalize(np.asarray(X, dtype=np.float32))
     else:
-        Xn = np.asarray(X, dtype=np.float32)
-        norms = np.sum(Xn * Xn, axis=1).astype(np.float32)
+        Xn = np.asarray(X, dtype=np.float64)
+        norms = np.sum(Xn * Xn, axis=1)
 
     src_parts: list[np.ndarray] = []
     dst_parts: list[np.ndarray] = []
@@ -235,7 +236,7 @@ def anchor_edges(
             xi2 = float(norms[i])
             c2 = norms[cand]
             dot = Xc @ xi
-            dist2 = (xi2 + c2 - 2.0 * dot).astype(np.float32)
+            dist2 = xi2 + c2 - 2.0 * dot
             dist2 = np.maximum(dist2, 0.0)
             d = np.sqrt(dist2).astype(np.float32)
 
-- 
2.43.0


From a84783d9aae4c13cec5f705e420fba44fa202bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 59/61] fix: kNN classifiers' Euclidean distances hold away
 from the origin, and integer features are no longer wrapped

---
 src/modssc/supervised/backends/numpy/knn.py |  3 +++
 src/modssc/supervised/backends/torch/knn.py | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modssc/supervised/backends/numpy/knn.py b/src/modssc/supervised/backends/numpy/knn.py
index fa4f98c..6ed918b 100644
--- a/src/modssc/supervised/backends/numpy/knn.py
+++ b/src/modssc/supervised/backends/numpy/knn.py
@@ -101,6 +101,9 @@ class NumpyKNNClassifier(BaseSupervisedClassifier):
 
         if self.metric == "euclidean":
             # negative squared distance so that larger is better
+            # float64: in float32 this expansion cancels away from the origin
+            Q = Q.astype(np.float64, copy=False)
+            X = X.astype(np.float64, copy=False)
             q2 = (Q * Q).sum(axis=1, keepdims=True)
             x2 = (X * X).sum(axis=1, keepdims=True).T
             dist2 = q2 + x2 - 2.0 * (Q @ X.T)
diff --git a/src/modssc/supervised/backends/torch/knn.py b/src/modssc/supervised/backends/torch/knn.py
index a8c3088..3b0f071 100644
--- a/src/modssc/supervised/backends/torch/knn.py
+++ b/src/modssc/supervised/backends/torch/knn.py
@@ -111,12 +111,15 @@ class TorchKNNClassifier(TorchSupportsProbaClassifierBase):
     def _pairwise_scores(self, Q):
         if self._X_train is None:
             raise RuntimeError("Model is not fitted (X_train is None)")
+        torch = _torch()
         X = self._X_train
+        if X.dtype not in (torch.float32, torch.float64):
+            X = X.to(torch.float32)
+        Q = Q.to(X.dtype)
         if self.metric == "euclidean":
-            q2 = (Q * Q).sum(dim=1, keepdim=True)
-            x2 = (X * X).sum(dim=1, keepdim=True).T
-            dist2 = q2 + x2 - 2.0 * (Q @ X.T)
-            return -dist2
+            # plain differences: in float32 |q|^2 + |x|^2 - 2 q.x cancels away from the origin
+            dist = torch.cdist(Q, X, compute_mode="donot_use_mm_for_euclid_dist")
+            return -dist.square()
         Qn = Q / (Q.norm(dim=1, keepdim=True) + float(self.eps))
         Xn = X / (X.norm(dim=1, keepdim=True) + float(self.eps))
         return Qn @ Xn.T
-- 
2.43.0


From ff4b20bb9a6e9db3d9b51b4280d9a5d993e2a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 60/61] fix: setred's distances hold away from the origin

---
 src/modssc/inductive/methods/setred.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index 12bbf05..04b3c7d 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -41,7 +41,8 @@ def _get_torch_x(obj: Any):
 
 
 def _pairwise_distances_numpy(X: np.ndarray) -> np.ndarray:
-    X = np.asarray(X, dtype=np.float32)
+    # float64: in float32 the expansion below cancels away from the origin
+    X = np.asarray(X, dtype=np.float64)
     if X.ndim != 2:
         raise InductiveValidationError("X must be 2D for distance computation.")
     norms = np.sum(X * X, axis=1, keepdims=True)
-- 
2.43.0


From 81767547e95eef221de04657f243cf29c184f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 61/61] fix: in setred a sample is no neighbour of itself when
 another lies at the same place

---
 src/modssc/inductive/methods/setred.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index 04b3c7d..d29ab3f 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -71,8 +71,9 @@ def _build_knn_graph_numpy(X: np.ndarray, *, k: int) -> tuple[list[np.ndarray],
     k = max(1, min(int(k), max(0, n - 1)))
     neighbors: list[set[int]] = [set() for _ in range(n)]
     for i in range(n):
-        order = np.argsort(dist[i])
-        for j in order[1 : k + 1]:
+        # a sample is no neighbor of itself; one at the same place is
+        order = np.argsort(dist[i], kind="stable")
+        for j in order[order != i][:k]:
             neighbors[i].add(int(j))
             neighbors[int(j)].add(int(i))
     return [np.asarray(sorted(nbrs), dtype=np.int64) for nbrs in neighbors], dist
-- 
2.43.0

