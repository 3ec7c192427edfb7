From 9385eaa17e3cc9daefebb2dc1bdb500dbf01e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 01/46] fix: do not lose the last sample of a shard when
 slicing by max_samples_per_sequence

The slice offsets were computed with floats. slice_count * (n / slice_count) may be
below n (e.g. n=109, max_samples_per_sequence=10), so the last sample was never assigned.
---
 src/megatron/energon/flavors/webdataset/sharder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sharder.py b/src/megatron/energon/flavors/webdataset/sharder.py
index fb35bf9..4ef8ec3 100644
--- a/src/megatron/energon/flavors/webdataset/sharder.py
+++ b/src/megatron/energon/flavors/webdataset/sharder.py
@@ -24,11 +24,12 @@ class Sharder:
         ):
             # Split the shard into slices of max_samples_per_sequence (more or less)
             slice_count = max(round((end_offset - start_offset) / max_samples_per_sequence), 1)
-            samples_per_sequence = (end_offset - start_offset) / slice_count
             # Note this must include the end offset as well, so slice_count + 1 steps (down there,
             # idx+1 is used to access the end offset)
+            # Integer arithmetic: A float product may end up below the end offset, losing a sample.
             offsets = [
-                start_offset + int(slice * samples_per_sequence) for slice in range(slice_count + 1)
+                start_offset + slice * (end_offset - start_offset) // slice_count
+                for slice in range(slice_count + 1)
             ]
             return [
                 [
-- 
2.43.0


From 7a050769cf946a767de0adf69264c8f120d1fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 02/46] fix: keep generator map position and sample index exact
 across failures and resume

---
 src/megatron/energon/wrappers/map_dataset.py | 50 +++++++++++---------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..5020a80 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,27 +111,33 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
             target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self.error_handler(e, sample)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
 
@@ -157,8 +163,6 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                             idx,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     yield add_sample_restore_key(
                         mapped_sample,
@@ -171,6 +175,8 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
                 self.error_handler(e, sample)
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
 
     def save_state(self) -> MapState:
         state = MapState.extend(
-- 
2.43.0


From dba1ce3ae10cde66fbb3f86fea48bc2ad7ba9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 03/46] fix: exact restore keys for stream-mapped samples after
 failures and for multiple outputs

---
 src/megatron/energon/wrappers/iter_map_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..24bfe4f 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -116,6 +116,9 @@ class IterMapDataset(
             # Resets the inner sample index
             nonlocal iter_idx, sample_restore_keys
             for entry in last_sample_wrapper:
+                if iter_idx > 0:
+                    # The samples fetched so far are already part of the yielded ones
+                    sample_restore_keys.clear()
                 iter_idx = 0
                 sample_restore_keys.append(get_sample_restore_key(entry))
                 yield entry
@@ -125,6 +128,7 @@ class IterMapDataset(
         # While True will break when the inner dataset is exhausted, but may continue on exception
         while True:
             iter_idx = 0
+            sample_restore_keys.clear()
             try:
                 for sample_idx, sample in self._sample_index.iter_ctx(self.iter_map_fn(ds_iter)):
                     yield set_sample_restore_key(
@@ -134,7 +138,6 @@ class IterMapDataset(
                         *sample_restore_keys,
                         src=self,
                     )
-                    sample_restore_keys.clear()
                     iter_idx += 1
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
-- 
2.43.0


From 43dc49397be3f7076ae3e83b858afa3ab81962d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 04/46] fix: exact generator batch position, restore keys and
 length of batched datasets

---
 .../energon/wrappers/batch_dataset.py         | 61 +++++++++++--------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..b4a8fc4 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -118,7 +118,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
@@ -132,33 +132,40 @@ class BatchDataset(
         sample_restore_keys = []
 
         if self._generator_sample_keys[worker_id] is not None:
-            sample_restore_keys = self._generator_sample_keys[worker_id]
+            sample_restore_keys = list(self._generator_sample_keys[worker_id])
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
             target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self.error_handler(e, batch)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
-            batch.clear()
+            batch = []
             sample_restore_keys = []
 
         def flush():
@@ -169,7 +176,7 @@ class BatchDataset(
                     assert inspect.isgeneratorfunction(
                         self.batcher
                     ), f"Generator in {self.batcher} but not marked as such."
-                    self._generator_sample_keys[worker_id] = sample_restore_keys
+                    self._generator_sample_keys[worker_id] = list(sample_restore_keys)
                     self._generator_offsets[worker_id] = 0
                     for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
                         self._sample_index.iter_ctx(batch_sample, sample_idx)
@@ -182,18 +189,18 @@ class BatchDataset(
                             *sample_restore_keys,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
                 pass
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
                 self.error_handler(e, batch)
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
+            sample_restore_keys.clear()
 
         for sample in self.dataset:
             batch.append(sample)
-- 
2.43.0


From 36c83429dc24f88d7d3fc0838bcbc9c20f36278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 05/46] fix: keep the buffered samples of grouped batching when
 restoring a state

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..142d653 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -249,6 +249,8 @@ class GroupBatchDataset(
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
@@ -272,9 +274,9 @@ class GroupBatchDataset(
                             SampleBufferMergedState(
                                 buffer=[
                                     (
-                                        []
+                                        list(bucket_state.samples.buffer)
                                         if gen_worker_idx == worker_idx
-                                        else bucket_state.samples.buffer
+                                        else []
                                     )
                                     for gen_worker_idx in range(
                                         max(self.worker_config.num_workers, 1)
-- 
2.43.0


From 65e47d7bfd58126c7ca46a38c77e63d08d6cb6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 06/46] fix: no empty packs for workers without a saved state

---
 src/megatron/energon/wrappers/packing_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..f548dc2 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -295,7 +295,7 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
-- 
2.43.0


From 485e03b523cfda65883fdf67bd771d903b3d3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 07/46] fix: restore keys of blended datasets when a worker has
 no samples of one of them

---
 src/megatron/energon/wrappers/blend_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..003fa3c 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,10 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        indexes, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (idx, dataset, weight)
+                for idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -92,7 +92,7 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         while True:
             ds_idx = self._worker_rng.choice_idx(probs=probs)
             sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            yield add_sample_restore_key(sample, indexes[ds_idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From 796c81f8e0ae9cff74b086a643bd8b01fc51f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 08/46] fix: resume concatenated datasets in the dataset where
 the state was saved

---
 .../energon/wrappers/concat_dataset.py        | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..d402d27 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -20,12 +20,16 @@ T_sample = TypeVar("T_sample")
 class ConcatState(State):
     #: State of the inner datasets
     dataset_states: List[State]
+    #: Index of the dataset currently being iterated
+    dataset_idx: int = 0
 
 
 @dataclass
 class ConcatMergedState(MergedState):
     #: State of the inner datasets
     dataset_states: List[MergedState]
+    #: Index of the dataset currently being iterated for each worker
+    dataset_idxs: Optional[List[int]] = None
 
 
 class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
@@ -37,6 +41,8 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     datasets: Tuple[SavableDataset[T_sample], ...]
 
+    _dataset_idx: List[int]
+
     def __init__(
         self,
         *datasets: SavableDataset[T_sample],
@@ -45,19 +51,23 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         """Construct a concatenated dataset."""
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
+        self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
         assert len(self) >= 0, "Datasets must be finite."
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        for ds_idx in range(self._dataset_idx[worker_idx], len(self.datasets)):
+            self._dataset_idx[worker_idx] = ds_idx
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+        self._dataset_idx[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
@@ -65,6 +75,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     def save_state(self) -> ConcatState:
         return ConcatState(
             dataset_states=[dataset.save_state() for dataset in self.datasets],
+            dataset_idx=self._dataset_idx[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[ConcatState]) -> ConcatMergedState:
@@ -77,17 +88,23 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
                 )
                 for ds_idx, dataset in enumerate(self.datasets)
             ],
+            dataset_idxs=[0 if s is None else s.dataset_idx for s in states],
         )
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
         if state is None:
             for dataset in self.datasets:
                 dataset.restore_state(None)
+            self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ConcatMergedState)
             assert len(self.datasets) == len(state.dataset_states)
             for dataset, dstate in zip(self.datasets, state.dataset_states):
                 dataset.restore_state(dstate)
+            if state.dataset_idxs is None:
+                self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
+            else:
+                self._dataset_idx = list(state.dataset_idxs)
 
     def can_restore_sample(self) -> bool:
         return all(dataset.can_restore_sample() for dataset in self.datasets)
-- 
2.43.0


From 784355f5d1a96f3d4f2a528d0f3e07c91fdc1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 09/46] fix: finite repeats survive a resume within a repeat
 and later epochs

---
 src/megatron/energon/wrappers/repeat_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..76271d6 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -73,9 +73,11 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
+                # Only count a repeat once it was completed
+                self._offset[worker_idx] = offset
                 for sample in self.dataset:
                     yield sample
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +88,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From acefac4d15c613f8462d5582d7372d002caccaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 10/46] fix: restoring an epochized dataset that was already
 iterated drops its old iterator

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..7391693 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # Do not go on with an iterator over the state before
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From cb11a5a111f9a6158257f4cee544946e3519186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 11/46] fix: the first worker after a restore is the one to
 emit the next sample

---
 src/megatron/energon/worker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..d1f6aed 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -164,9 +164,7 @@ class WorkerConfig:
         if worker_info is None:
             return self.worker_id_offset
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return (worker_info.id + self.worker_id_offset) % worker_info.num_workers
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From c0693d73ff9002725df4268799bde6983c54c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 12/46] fix: save the state of workers which did not emit a
 sample since the start or restore

---
 src/megatron/energon/savable_loader.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..dc2b0d1 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -678,6 +678,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     _worker_sample_counters: List[int]
     #: Id of the next worker to retrieve data from
     _next_worker_id: int = 0
+    #: The state that was restored, as long as the workers were not started
+    _restored_state: Optional[SavableDataLoaderState] = None
     #: Global index of the last yielded sample
     _global_sample_idx: int = 0
     #: Current iterator index of the last yielded sample
@@ -731,7 +733,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        # -1: The worker did not emit a sample yet
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
@@ -892,8 +895,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Initial (or restored) state
+            return self._restored_state
         else:
             # Fetch from worker processes
             worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
@@ -927,6 +930,15 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
             self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
+            self._restored_state = state
+            self._next_worker_id = state.next_worker_id
+            # The last sample emitted by each worker before the state was saved
+            self._worker_sample_counters = [
+                sample_index + offset - 1
+                for sample_index, offset in zip(
+                    state.dataset_state.state.sample_index, state.dataset_state.offset
+                )
+            ]
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
-- 
2.43.0


From 0362132846a2a2d6905dc538e63e4a767d8e15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 13/46] fix: seed workers without a saved state with their own
 seed after a restore

---
 src/megatron/energon/savable_loader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index dc2b0d1..56f97c3 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -485,8 +485,11 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     def _restore_state(self, state: SavableDatasetMergedState) -> None:
         """Restores the internal worker state"""
         assert torch.utils.data.get_worker_info() is not None, "Can only restore in worker process"
+        # A worker without saved state starts with its own seed (the process may have been seeded
+        # for another worker, see `worker_id_offset`)
+        worker_seed = self.worker_config.worker_seed()
         if state.torch_rng[self._worker_id] is None:
-            torch.manual_seed(torch.initial_seed())
+            torch.manual_seed(worker_seed)
         else:
             torch.set_rng_state(
                 torch.frombuffer(
@@ -494,12 +497,12 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 ).clone()
             )
         if state.numpy_rng[self._worker_id] is None:
-            np.random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            np.random.seed(worker_seed)
         else:
             np_tp, np_state, *np_rng = state.numpy_rng[self._worker_id]
             np.random.set_state((np_tp, np.frombuffer(np_state, dtype=np.uint32), *np_rng))
         if state.rng[self._worker_id] is None:
-            random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            random.seed(worker_seed)
         else:
             random.setstate(state.rng[self._worker_id])
         self._sample_index = state.sample_index[self._worker_id]
-- 
2.43.0


From dd4efb8a113aef16ecf7f09b93d10d967247f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 14/46] fix: keep the sample index when restoring a loader
 without worker processes

---
 src/megatron/energon/savable_loader.py | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 56f97c3..5f34ed7 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,33 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        assert all(s is None or isinstance(s, SimpleSavableDatasetState) for s in states)
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[MergedState]):
+        if isinstance(state, SimpleSavableDatasetMergedState):
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
+        else:
+            # Initial state, or a state of the inner dataset (saved without sample index)
+            self.dataset.restore_state(state)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From 117533b6ce86d8a70dec5687e578d556fd23d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 15/46] fix: samples following an excluded sample get restore
 keys of their own

---
 .../energon/flavors/webdataset/single_shard_reader.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..180b9a5 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -135,10 +135,14 @@ class SingleShardReader:
             m = split_name_re.match(fname)
             if not m:
                 continue
+            last_base_name = self._cur_base_name
             self._cur_base_name, self._cur_ext = m.groups()
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
             if self._cur_key in self.exclude:
+                if self._cur_base_name != last_base_name:
+                    # Excluded samples also count for the offset within the shard
+                    self.shard_state.offset += 1
                 continue
             return
 
-- 
2.43.0


From c33b34461fe8bab0de6e4ea19129561bd8ed822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 16/46] fix: grouped batches are restorable and get
 encode_batch applied

---
 src/megatron/energon/task_encoder/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..9641226 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -401,9 +401,18 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
+
+            if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+                dataset = MapDataset(
+                    dataset,
+                    self.encode_batch,
+                    worker_config=worker_config,
+                    stateless_map_fn=get_stateless(self.encode_batch),
+                )
         else:
             # No grouping is active
 
-- 
2.43.0


From e4b0bcd79f13275c4b5b0d2c08ac7dd3a8a00b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 17/46] fix: restoring the initial state also resets the worker
 random generators

---
 src/megatron/energon/rng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..17f758d 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -110,6 +110,8 @@ class WorkerRng:
         return WorkerRngMergedState(rng=[None if s is None else s.rng for s in states])
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
+        # Drop the current generator, it is created from the state or from the worker's seed
+        self._rng = None
         if state is None:
             self._restore_states = None
         else:
-- 
2.43.0


From 4af9ab689b024d35a3d20ab2723fde0e29a178d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 18/46] fix: stateless functions seed with the seed of the
 worker they run for

---
 src/megatron/energon/task_encoder/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 9641226..def6c9c 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,10 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
 
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +182,7 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From df5a0dffa88ebd00b64d6acf949860348205cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 19/46] fix: comparing a WorkerConfig with another type is not
 always true

---
 src/megatron/energon/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index d1f6aed..d05ebb6 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -126,7 +126,7 @@ class WorkerConfig:
     def __eq__(self, other):
         """Do not compare everything to check for equal config"""
         if not isinstance(other, WorkerConfig):
-            return NotImplementedError()
+            return NotImplemented
         return all(
             [
                 self.rank == other.rank,
-- 
2.43.0


From 745c24d879edce4f5baa7fa5a1a6fcc4b2ca7190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 20/46] fix: retrying stream returns all requested bytes after
 short reads and faults

---
 src/megatron/energon/retry_stream.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..d56718f 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -36,12 +36,14 @@ class RetryReadStream(BinaryIO):
 
     def read(self, n: int = -1) -> bytes:
         buf = b""
-        for retry in range(10):
+        retry = 0
+        while True:
             try:
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
+                # A read may return less than requested. Only request the missing bytes.
+                res = self._file.read(n - len(buf) if n >= 0 else n)
                 self._pos += len(res)
                 buf += res
                 if (
@@ -49,16 +51,19 @@ class RetryReadStream(BinaryIO):
                     or len(buf) == n
                     or self._pos >= self._size
                 ):
-                    return res
+                    return buf
+                if len(res) == 0:
+                    raise IOError("Unexpected end of file")
             except IOError:
                 try:
-                    self._file.close()
+                    if self._file is not None:
+                        self._file.close()
                 except IOError:
                     pass
                 self._file = None
-                if retry == 9:
+                retry += 1
+                if retry == 10:
                     raise
-                continue
 
     def seek(self, offset: int, whence: int = 0) -> int:
         if whence == 0:
@@ -75,7 +80,8 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            # The position of the file is unknown now. Reopen on the next read.
+            self._file = None
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From ac78ea947eee4f1bdd4264c0b9e7ed83f1c34d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 21/46] fix: any negative read size of a sub file stays in its
 window

---
 src/megatron/energon/flavors/webdataset/itar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/itar.py b/src/megatron/energon/flavors/webdataset/itar.py
index 7a27eca..e18edef 100644
--- a/src/megatron/energon/flavors/webdataset/itar.py
+++ b/src/megatron/energon/flavors/webdataset/itar.py
@@ -75,7 +75,7 @@ class SubFileReader(BinaryIO):
         self.stream.seek(self.offset)
 
     def read(self, n: int = -1) -> bytes:
-        if n == -1:
+        if n < 0:
             n = self.size - self._pos
         else:
             n = min(n, self.size - self._pos)
-- 
2.43.0


From 268c9f9a4d4cf14317e0e3a7f0e0167a209eab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:38 +0000
Subject: [PATCH 22/46] fix: a shard whose index could not be written is not
 listed as prepared

---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..218b041 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -96,8 +96,9 @@ class WebdatasetPreparator:
                             iw.append(member.offset)
                             last_base_name = base_name
                             count += 1
-                    shard_info.count = count
                     iw.append(tar.offset)
+            # Only count the samples of shards where the index was completely written
+            shard_info.count = count
             return shard_info, parts
         except BaseException:
             logger.exception(f"Shard failed to load: {path!r}. Skipping it.")
-- 
2.43.0


From 1a273ea8974850c34ea88e3b7f32e93ce5eab3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:38 +0000
Subject: [PATCH 23/46] fix: splitting by ratio assigns every shard to a split
 part

---
 src/megatron/energon/flavors/webdataset/prepare.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index 218b041..38568c9 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -222,12 +222,10 @@ class WebdatasetPreparator:
             yaml.dump(to_json_object(info), wf)
 
         if split_parts_ratio is not None:
-            # Normalize ratio
-            total_ratio = sum(split_ratio for _, split_ratio in split_parts_ratio)
-            split_parts_ratio = [
-                (split_part, split_ratio / total_ratio)
-                for split_part, split_ratio in split_parts_ratio
-            ]
+            # Sum up in the same way as below, such that the last part ends exactly at len(shards)
+            total_ratio = 0
+            for _, split_ratio in split_parts_ratio:
+                total_ratio += split_ratio
             # Sample from shards based on the split ratio from split parts
             split_shards = {}
             if shuffle_seed is not None:
@@ -236,7 +234,7 @@ class WebdatasetPreparator:
             split_offset = 0
             for split_part, split_ratio in split_parts_ratio:
                 split_total += split_ratio
-                split_end = int(len(shards) * split_total)
+                split_end = int(len(shards) * (split_total / total_ratio))
                 split_shards[split_part] = [shard.name for shard in shards[split_offset:split_end]]
                 split_offset = split_end
         else:
-- 
2.43.0


From e39b751bf730dd8a74727f8226e2071d0f046868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 24/46] fix: an infinite shuffle_over_epochs_multiplier stays
 infinite when multiplied

---
 src/megatron/energon/metadataset/loader_interface.py |  5 +++++
 src/megatron/energon/metadataset/metadataset.py      | 10 +++++++---
 src/megatron/energon/metadataset/metadataset_v2.py   | 10 +++++++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/metadataset/loader_interface.py b/src/megatron/energon/metadataset/loader_interface.py
index 79984a7..c4e5381 100644
--- a/src/megatron/energon/metadataset/loader_interface.py
+++ b/src/megatron/energon/metadataset/loader_interface.py
@@ -8,6 +8,11 @@ from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.worker import WorkerConfig
 
 
+def multiply_shuffle_over_epochs(a: int, b: int) -> int:
+    """Multiply two `shuffle_over_epochs` factors, where -1 means infinitely many epochs."""
+    return -1 if a == -1 or b == -1 else a * b
+
+
 class DatasetLoaderInterface(ABC):
     """General interface for a dataset loader."""
 
diff --git a/src/megatron/energon/metadataset/metadataset.py b/src/megatron/energon/metadataset/metadataset.py
index 2bc82d4..0120b34 100644
--- a/src/megatron/energon/metadataset/metadataset.py
+++ b/src/megatron/energon/metadataset/metadataset.py
@@ -9,7 +9,10 @@ from megatron.energon.epathlib import EPath
 from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference:
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..88303e6 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -10,7 +10,10 @@ from megatron.energon.flavors import BaseCoreDatasetFactory, Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
 from megatron.energon.metadataset.join_dataset_loader import JoinDatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From 9ce939b67ea03b8fd8c73648a2c5d4aa64550a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 25/46] fix: a metadataset join applies its own
 shuffle_over_epochs_multiplier

---
 src/megatron/energon/metadataset/metadataset_v2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 88303e6..75bca70 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -165,7 +165,9 @@ class MetadatasetJoin(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From 54b77103eb304fc1906edb8391b52a25402ab915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 26/46] fix: a metadataset join without a split_config keeps
 the split_configs of its parts

---
 src/megatron/energon/metadataset/metadataset_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 75bca70..30e481a 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -120,7 +120,7 @@ class MetadatasetJoin(DatasetLoaderInterface):
     subflavors: Optional[Dict[str, Any]] = None
     shuffle_over_epochs_multiplier: int = 1
     dataset_config: str = "dataset.yaml"
-    split_config: str = "split.yaml"
+    split_config: Optional[str] = None
 
     _dataset: Optional[DatasetLoaderInterface] = None
 
-- 
2.43.0


From be2d5b1d23966061ca19a073921a538d0eb657b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 27/46] fix: joined samples can be restored by their restore
 key

---
 src/megatron/energon/flavors/base_dataset.py              | 8 +++++---
 .../energon/flavors/webdataset/joined_webdataset.py       | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/flavors/base_dataset.py b/src/megatron/energon/flavors/base_dataset.py
index 8f573e7..720ca38 100644
--- a/src/megatron/energon/flavors/base_dataset.py
+++ b/src/megatron/energon/flavors/base_dataset.py
@@ -408,14 +408,16 @@ def set_sample_restore_key(
 ) -> T_sample:
     """Sets the restore key for a sample. The sample must be a valid `Sample` or dict containing
     __restore_key__, which is a tuple of keys that can be used to restore the inner sample.
-    This restore key is prepended with the `key`."""
+    The restore key starts with the type of `src` (if not None), followed by the `key`."""
+    if src is not None:
+        key = (type(src).__name__, *key)
     if isinstance(sample, Sample) or hasattr(sample, "__restore_key__"):
         try:
-            sample.__restore_key__ = (type(src).__name__, *key)
+            sample.__restore_key__ = key
         except KeyError:
             pass
     elif isinstance(sample, dict) and "__restore_key__" in sample:
-        sample["__restore_key__"] = (type(src).__name__, *key)
+        sample["__restore_key__"] = key
     elif fail_otherwise:
         raise RuntimeError(
             "Did not yield a sample with a restore key, but is marked stateless/deterministic."
diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..ed2902b 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -237,7 +237,7 @@ class JoinedWebdatasetFactory(
         return set_sample_restore_key(
             self._sample_joiner(*loaded_samples),
             *restore_key,
-            src=self,
+            src=None,  # Restored by the sample loader, which expects the "Webdataset" key
             fail_otherwise=True,
         )
 
-- 
2.43.0


From 2347beb2b610ba598861d5ae6fac53cf69d53279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 28/46] fix: a sample whose joined part failed is not joined
 with the previous part

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..101d404 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -241,6 +241,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
+                    complete = True
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -262,7 +263,10 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             )
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                            # The group is still the one of the previous sample, do not join it
+                            complete = False
+                    if complete:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
-- 
2.43.0


From b5abdc45876369b8b81067ccc899503a9ae7111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:45 +0000
Subject: [PATCH 29/46] fix: the handler for failing samples of a webdataset
 gets their key

---
 src/megatron/energon/flavors/webdataset/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/error_handler.py b/src/megatron/energon/flavors/webdataset/error_handler.py
index 857a282..84a4c3a 100644
--- a/src/megatron/energon/flavors/webdataset/error_handler.py
+++ b/src/megatron/energon/flavors/webdataset/error_handler.py
@@ -32,7 +32,7 @@ class ErrorHandler(Generic[T_sample]):
     ):
         if isinstance(sample, dict):
             key = sample.get("__key__")
-        elif isinstance(sample, list):
+        elif isinstance(sample, (list, tuple)) and len(sample) > 0:
             if isinstance(sample[0], dict):
                 key = ",".join("None" if s is None else s.get("__key__") for s in sample)
             elif isinstance(sample[0], Sample):
-- 
2.43.0


From 406d713ab7cb5c35f94ef8592c1934755f068915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:45 +0000
Subject: [PATCH 30/46] fix: a failing inner dataset of an IterMapDataset does
 not end the epoch silently

---
 .../energon/wrappers/iter_map_dataset.py      | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 24bfe4f..c08a1a0 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -111,17 +111,23 @@ class IterMapDataset(
         iter_idx = 0
         sample_idx = 0
         sample_restore_keys = []
+        # The exception raised by the inner dataset (i.e. not by the iter_map_fn), if any
+        inner_exception: Optional[Exception] = None
 
         def reset_idx_iter() -> Generator[T_sample, None, None]:
             # Resets the inner sample index
-            nonlocal iter_idx, sample_restore_keys
-            for entry in last_sample_wrapper:
-                if iter_idx > 0:
-                    # The samples fetched so far are already part of the yielded ones
-                    sample_restore_keys.clear()
-                iter_idx = 0
-                sample_restore_keys.append(get_sample_restore_key(entry))
-                yield entry
+            nonlocal iter_idx, sample_restore_keys, inner_exception
+            try:
+                for entry in last_sample_wrapper:
+                    if iter_idx > 0:
+                        # The samples fetched so far are already part of the yielded ones
+                        sample_restore_keys.clear()
+                    iter_idx = 0
+                    sample_restore_keys.append(get_sample_restore_key(entry))
+                    yield entry
+            except Exception as e:
+                inner_exception = e
+                raise
 
         ds_iter = iter(reset_idx_iter())
 
@@ -142,6 +148,9 @@ class IterMapDataset(
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
+                if inner_exception is not None:
+                    # The inner dataset failed and is exhausted now, that is not its end
+                    raise
                 self.error_handler(e, last_sample_wrapper.last_sample)
             else:
                 break
-- 
2.43.0


From a7c926891c0afc53524cd30e260772080aa18fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:58 +0000
Subject: [PATCH 31/46] fix: .. and parent do not lead out of the rclone remote
 of a path

---
 src/megatron/energon/epathlib/epath.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 873c928..122af5f 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -76,8 +76,9 @@ class EPath:
                 raise ValueError(f"Unknown protocol: {protocol}")
 
     @staticmethod
-    def _resolve(path: Union[str, PurePosixPath]) -> PurePosixPath:
-        """Resolve a path, removing .. and . components."""
+    def _resolve(path: Union[str, PurePosixPath], num_fs_path_parts: int = 1) -> PurePosixPath:
+        """Resolve a path, removing .. and . components. The first `num_fs_path_parts` parts specify
+        the file system and cannot be removed by .. components."""
         if isinstance(path, str):
             path = PurePosixPath(path)
         parts = path.parts
@@ -87,7 +88,7 @@ class EPath:
             new_parts = []
             for part in parts[1:]:
                 if part == "..":
-                    if len(new_parts) == 0:
+                    if 1 + len(new_parts) <= max(1, num_fs_path_parts):
                         raise ValueError(f"Path above root: {path}")
                     new_parts.pop()
                 elif path == ".":
@@ -197,7 +198,8 @@ class EPath:
     @property
     def parent(self):
         new_path = EPath(self)
-        new_path.internal_path = self.internal_path.parent
+        if len(self.internal_path.parts) != self.num_fs_path_parts:
+            new_path.internal_path = self.internal_path.parent
         return new_path
 
     @property
@@ -325,7 +327,8 @@ class EPath:
 
         new_path = EPath(self)
         new_path.internal_path = self._resolve(
-            self.internal_path / (other if isinstance(other, str) else other.internal_path)
+            self.internal_path / (other if isinstance(other, str) else other.internal_path),
+            self.num_fs_path_parts,
         )
         return new_path
 
@@ -338,7 +341,9 @@ class EPath:
             return self
 
         new_path = EPath(self)
-        new_path.internal_path = self._resolve(other.internal_path / self.internal_path)
+        new_path.internal_path = self._resolve(
+            other.internal_path / self.internal_path, other.num_fs_path_parts
+        )
         return new_path
 
     def __lt__(self, other: "EPath"):
-- 
2.43.0


From 791df7015cf1d84e6c49ac8c1d0c6a290d9c963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:58 +0000
Subject: [PATCH 32/46] fix: absolute paths may start with two slashes

---
 src/megatron/energon/epathlib/epath.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 122af5f..f494768 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -59,10 +59,9 @@ class EPath:
                 self.protocol = "local"
                 self.num_fs_path_parts = 0
             elif protocol == "rclone":
-                if not path.startswith("/"):
-                    # rclone paths are treated as absolute
-                    # The first part of the path will be the rclone remote name
-                    path = "/" + path
+                # rclone paths are treated as absolute
+                # The first part of the path will be the rclone remote name
+                path = "/" + path.lstrip("/")
 
                 self.internal_path = self._resolve(path)
 
@@ -82,7 +81,7 @@ class EPath:
         if isinstance(path, str):
             path = PurePosixPath(path)
         parts = path.parts
-        if parts[0] != "/":
+        if parts[0] not in ("/", "//"):
             raise ValueError("Only absolute paths are supported")
         if ".." in parts or "." in parts:
             new_parts = []
@@ -95,7 +94,7 @@ class EPath:
                     pass
                 else:
                     new_parts.append(part)
-            path = PurePosixPath("/", *new_parts)
+            path = PurePosixPath(parts[0], *new_parts)
         return path
 
     @staticmethod
-- 
2.43.0


From 3bcfaef5989c93d68b68fca7854aaa8f8a91a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:58 +0000
Subject: [PATCH 33/46] fix: comparing a path with another object does not fail

---
 src/megatron/energon/epathlib/epath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index f494768..c84cd3b 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -368,4 +368,6 @@ class EPath:
         return hash((self.internal_path, self.protocol))
 
     def __eq__(self, other):
+        if not isinstance(other, EPath):
+            return NotImplemented
         return self.internal_path == other.internal_path and self.protocol == other.protocol
-- 
2.43.0


From b435ac1145c64bcadfe097075301975fc0b30676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:58 +0000
Subject: [PATCH 34/46] fix: an endpoint whose host name starts with http gets
 a protocol

---
 src/megatron/energon/epathlib/epath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index c84cd3b..9a97191 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -128,7 +128,9 @@ class EPath:
             )
 
         # If the endpoint does not specify a protocol, assume https://
-        if rclone_entry.endpoint and not rclone_entry.endpoint.startswith("http"):
+        if rclone_entry.endpoint and not rclone_entry.endpoint.startswith(
+            ("http://", "https://")
+        ):
             s3fs_endpoint = "https://" + rclone_entry.endpoint
         else:
             s3fs_endpoint = rclone_entry.endpoint
-- 
2.43.0


From e08a7faf286e8096954fc7a78710c4139b29eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:36 +0000
Subject: [PATCH 35/46] fix: percent signs in the rclone config are no
 interpolation

---
 src/megatron/energon/epathlib/rclone_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/rclone_config.py b/src/megatron/energon/epathlib/rclone_config.py
index 7d01b8d..8415dcb 100644
--- a/src/megatron/energon/epathlib/rclone_config.py
+++ b/src/megatron/energon/epathlib/rclone_config.py
@@ -61,7 +61,7 @@ def get_rclone_config_path() -> Optional[Path]:
 def read_rclone_config_at_path(config_path: Path) -> Dict[str, ConfigEntry]:
     """Reads the config file and returns a dictionary with the config entries."""
 
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read(config_path)
 
     config_entries = {}
-- 
2.43.0


From 8b1b2a9a02c76f3449b0f94ca5ffd8f3c86d5ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 36/46] fix: a field option that is no access expression is its
 own name

---
 src/megatron/energon/flavors/webdataset/field_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/field_access.py b/src/megatron/energon/flavors/webdataset/field_access.py
index 6b29521..f876c46 100644
--- a/src/megatron/energon/flavors/webdataset/field_access.py
+++ b/src/megatron/energon/flavors/webdataset/field_access.py
@@ -31,7 +31,7 @@ def split_field_access(field_desc: str) -> List[List[str]]:
                 ]
             )
         else:
-            option_fields.append([field_desc])
+            option_fields.append([option])
     return option_fields
 
 
-- 
2.43.0


From c860c6cb98c4232d786461c5ecd824784456857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 37/46] fix: a field map that misses a required field is
 rejected

---
 .../flavors/webdataset/default_generic_webdataset.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py b/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
index 6954c6b..2aef27a 100644
--- a/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
@@ -5,7 +5,7 @@ import dataclasses
 from typing import Any, Callable, Dict, Generic, List, Optional, TypeVar, Union
 
 from megatron.energon.epathlib import EPath
-from megatron.energon.flavors.base_dataset import SavableDataset
+from megatron.energon.flavors.base_dataset import Sample, SavableDataset
 from megatron.energon.flavors.webdataset.base_webdataset import BaseWebdatasetFactory
 from megatron.energon.flavors.webdataset.config import MAIN_FOLDER_NAME
 from megatron.energon.flavors.webdataset.field_access import field_access, split_field_access
@@ -76,13 +76,17 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
             assert part_filter is None
             # Split field map fields by json[field][field]
             fields = {key: split_field_access(field) for key, field in field_map.items()}
+            # The loader sets the base fields itself
+            base_fields = set(field.name for field in dataclasses.fields(Sample))
             assert set(field.name for field in dataclasses.fields(self.__sample_type__)).issuperset(
                 fields.keys()
             ) and set(
                 field.name
                 for field in dataclasses.fields(self.__sample_type__)
-                if field.default is not dataclasses.MISSING
-                and field.default_factory is not dataclasses.MISSING
+                if field.default is dataclasses.MISSING
+                and field.default_factory is dataclasses.MISSING
+                and field.init
+                and field.name not in base_fields
             ).issubset(
                 field_map.keys()
             ), f"field_map does not map to type {self.__sample_type__.__name__} fields"
-- 
2.43.0


From bfd579b725141ac77c4b679700335837cd2f95ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 38/46] fix: an augmenting task encoder delegates every method
 it does not override

---
 src/megatron/energon/task_encoder/base.py | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index def6c9c..ed549e6 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -752,6 +752,23 @@ class AugmentTaskEncoder(
             task_encoder: The delegate task encoder. All calls will by default be forwarded to this.
         """
         self._task_encoder = task_encoder
+        # Everything that is not overridden is the method of the original task encoder itself, such
+        # that it is also known which of them are the defaults, and which ones are stateless.
+        for name in (
+            "cookers",
+            "cook_crude_sample",
+            "encode_sample",
+            "batch",
+            "batch_group_criterion",
+            "encode_batch",
+            "select_samples_to_pack",
+            "pack_selected_samples",
+        ):
+            if getattr(type(self), name) is getattr(AugmentTaskEncoder, name):
+                setattr(self, name, getattr(task_encoder, name))
+
+    def cook_crude_sample(self, sample: Union[T_sample, CrudeSample]) -> T_sample:
+        return self._task_encoder.cook_crude_sample(sample)
 
     def encode_sample(self, sample: T_sample) -> T_encoded_sample:
         return self._task_encoder.encode_sample(sample)
@@ -759,5 +776,14 @@ class AugmentTaskEncoder(
     def batch(self, samples: List[T_encoded_sample]) -> T_raw_batch:
         return self._task_encoder.batch(samples)
 
+    def batch_group_criterion(self, sample: T_encoded_sample) -> Tuple[Hashable, Optional[int]]:
+        return self._task_encoder.batch_group_criterion(sample)
+
     def encode_batch(self, batch_data: T_raw_batch) -> T_batch:
         return self._task_encoder.encode_batch(batch_data)
+
+    def select_samples_to_pack(self, samples: List[T_sample]) -> List[List[T_sample]]:
+        return self._task_encoder.select_samples_to_pack(samples)
+
+    def pack_selected_samples(self, samples: List[T_sample]) -> T_sample:
+        return self._task_encoder.pack_selected_samples(samples)
-- 
2.43.0


From f388f64f53bd71f5080bb50f31ddaf1b64d58f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 39/46] fix: a typed tuple of fixed size is a tuple

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d0c01db..8a8b705 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -454,12 +454,12 @@ def raw_to_typed(  # noqa: C901
                     _path,
                     _stage,
                 )
-            return [
+            return tuple(
                 raw_to_typed(
                     val, inner_type, strict, allow_imports, f"{_path} -> {idx}", _stage + (idx,)
                 )
                 for idx, (val, inner_type) in enumerate(zip(raw_data, inner_types))
-            ]
+            )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
         key_type, value_type = typing.get_args(inst_type)
-- 
2.43.0


From d66d7b44088d9ab8a3a72fb8f1eb1c75b561e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 40/46] fix: positional arguments are passed in their order

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 8a8b705..98afb5f 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,7 +591,7 @@ def safe_call_function(
                     )
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
@@ -600,7 +600,7 @@ def safe_call_function(
                 if len(unused_args) == 0:
                     arg_val = param.default
                 else:
-                    arg_val = unused_args.pop()
+                    arg_val = unused_args.pop(0)
                 args.append(
                     raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
                 )
-- 
2.43.0


From c8db297e67dbbd25733a86a9a31d8981bb8ead3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 41/46] fix: defaults of omitted configuration values are used
 as they are

---
 src/megatron/energon/typed_converter.py | 40 +++++++++++++------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 98afb5f..25534bb 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -300,7 +300,7 @@ def raw_to_typed(  # noqa: C901
         defaults = getattr(inst_type, "_field_defaults", {})
         kwargs = {
             field_name: raw_to_typed(
-                raw_data.get(field_name, defaults.get(field_name, _missing_value)),
+                raw_data.get(field_name, _missing_value),
                 field_type,
                 strict,
                 allow_imports,
@@ -308,6 +308,7 @@ def raw_to_typed(  # noqa: C901
                 _stage + (idx,),
             )
             for idx, (field_name, field_type) in enumerate(inst_type.__annotations__.items())
+            if field_name in raw_data or field_name not in defaults
         }
         if strict and not set(raw_data).issubset(inst_type.__annotations__):
             raise JsonValueError(
@@ -339,18 +340,7 @@ def raw_to_typed(  # noqa: C901
             )
         kwargs = {
             field.name: raw_to_typed(
-                raw_data.get(
-                    field.name,
-                    (
-                        (
-                            _missing_value
-                            if field.default_factory is dataclasses.MISSING
-                            else field.default_factory()
-                        )
-                        if field.default is dataclasses.MISSING
-                        else field.default
-                    ),
-                ),
+                raw_data.get(field.name, _missing_value),
                 field.type,
                 strict,
                 allow_imports,
@@ -359,6 +349,13 @@ def raw_to_typed(  # noqa: C901
             )
             for idx, field in enumerate(dataclasses.fields(inst_type))
             if field.init
+            and (
+                field.name in raw_data
+                or (
+                    field.default is dataclasses.MISSING
+                    and field.default_factory is dataclasses.MISSING
+                )
+            )
         }
         if strict and not set(raw_data).issubset(
             field.name for field in dataclasses.fields(inst_type) if field.init
@@ -556,8 +553,11 @@ def safe_call_function(
             ):
                 if param.default is inspect.Parameter.empty and key not in unused_args:
                     raise ValueError(f"Missing required argument {key!r} for {fn}")
+                if key not in unused_args:
+                    # The default is used as it is, it does not have to match the type
+                    continue
                 kwargs[key] = raw_to_typed(
-                    unused_args.pop(key, param.default),
+                    unused_args.pop(key),
                     t,
                     strict,
                     allow_imports,
@@ -598,12 +598,14 @@ def safe_call_function(
                 if param.default is inspect.Parameter.empty and len(unused_args) == 0:
                     raise ValueError(f"Missing required positional argument {key!r} at index {idx}")
                 if len(unused_args) == 0:
-                    arg_val = param.default
+                    # The default is used as it is, it does not have to match the type
+                    args.append(param.default)
                 else:
-                    arg_val = unused_args.pop(0)
-                args.append(
-                    raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
-                )
+                    args.append(
+                        raw_to_typed(
+                            unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        )
+                    )
             elif param.kind == inspect.Parameter.VAR_POSITIONAL:
                 for arg_val in unused_args:
                     args.append(
-- 
2.43.0


From da22ce3b2ec294a6f5763adf1c350342047cc339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 42/46] fix: a given subflavor overrides the one of the data
 set

---
 src/megatron/energon/dataset_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/dataset_config.py b/src/megatron/energon/dataset_config.py
index c225df8..4fe99f3 100644
--- a/src/megatron/energon/dataset_config.py
+++ b/src/megatron/energon/dataset_config.py
@@ -104,6 +104,8 @@ def get_dataset_from_config(
         ),
         default_type=StandardWebdatasetFactory,
     )
+    if subflavor is not None:
+        dataset.subflavor = subflavor
     if dataset.subflavors is None:
         dataset.subflavors = subflavors
     elif subflavors is not None:
-- 
2.43.0


From 249d5901546647e2d5a5100d9f60f32376e7cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:17 +0000
Subject: [PATCH 43/46] fix: a restored state is not changed by the dataset it
 was restored into

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++---
 src/megatron/energon/rng.py                              | 2 +-
 src/megatron/energon/savable_loader.py                   | 2 +-
 src/megatron/energon/wrappers/base.py                    | 2 +-
 src/megatron/energon/wrappers/batch_dataset.py           | 4 ++--
 src/megatron/energon/wrappers/buffer.py                  | 2 +-
 src/megatron/energon/wrappers/epochize_dataset.py        | 2 +-
 src/megatron/energon/wrappers/limit_dataset.py           | 2 +-
 src/megatron/energon/wrappers/log_sample_dataset.py      | 2 +-
 src/megatron/energon/wrappers/map_dataset.py             | 4 ++--
 src/megatron/energon/wrappers/packing_dataset.py         | 2 +-
 src/megatron/energon/wrappers/repeat_dataset.py          | 2 +-
 12 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 101d404..ad6d469 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -753,9 +753,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                     state.active_shards, self.shards_by_key
                 )
             ]
-            self._sample_count = state.sample_count
-            self._epoch_count = state.epoch_count
-            self._epoch_sample_count = state.epoch_sample_count
+            self._sample_count = list(state.sample_count)
+            self._epoch_count = list(state.epoch_count)
+            self._epoch_sample_count = list(state.epoch_sample_count)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 17f758d..144c2fe 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -116,7 +116,7 @@ class WorkerRng:
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-            self._restore_states = state.rng
+            self._restore_states = list(state.rng)
 
 
 @dataclass
diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 5f34ed7..8d2c3e4 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -592,7 +592,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             self._restore_from = state.state
             self._worker_offset = worker_offset
             self.dataset.restore_state(state.dataset_state)
-            self._skip_samples = state.offset
+            self._skip_samples = list(state.offset)
 
     def can_restore_sample(self) -> bool:
         return self.dataset.can_restore_sample()
diff --git a/src/megatron/energon/wrappers/base.py b/src/megatron/energon/wrappers/base.py
index afe7cd6..c92ede5 100644
--- a/src/megatron/energon/wrappers/base.py
+++ b/src/megatron/energon/wrappers/base.py
@@ -198,7 +198,7 @@ class SampleIndex:
             self._sample_index = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert len(state) == len(self._sample_index)
-            self._sample_index = state
+            self._sample_index = list(state)
 
 
 def get_sample_restore_key(sample: Any) -> Optional[Union[str, int]]:
diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index b4a8fc4..15a65eb 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -258,8 +258,8 @@ class BatchDataset(
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, BatchGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/buffer.py b/src/megatron/energon/wrappers/buffer.py
index 730e504..de17c04 100644
--- a/src/megatron/energon/wrappers/buffer.py
+++ b/src/megatron/energon/wrappers/buffer.py
@@ -139,7 +139,7 @@ class SavableSampleBuffer(BaseWrapperDataset[T_sample], Generic[T_sample]):
             assert isinstance(state, SampleBufferMergedState)
             assert len(state.buffer) == max(self.worker_config.num_workers, 1)
             self._buffer = [[] for _ in range(max(self.worker_config.num_workers, 1))]
-            self._restore_keys = state.buffer
+            self._restore_keys = [list(keys) for keys in state.buffer]
             self._restore_pending = True
 
     def restore_key(self) -> Tuple[Union[str, int], ...]:
diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 7391693..c3366ce 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -130,7 +130,7 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, EpochizeMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index c32f6c6..e95772d 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -133,7 +133,7 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
             self._current_offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LimitMergedState)
-            self._current_offset = state.offset
+            self._current_offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/log_sample_dataset.py b/src/megatron/energon/wrappers/log_sample_dataset.py
index 772b180..b0582e5 100644
--- a/src/megatron/energon/wrappers/log_sample_dataset.py
+++ b/src/megatron/energon/wrappers/log_sample_dataset.py
@@ -130,7 +130,7 @@ class LogSampleDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_s
             self._step = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LogSampleMergedState)
-            self._step = state.step
+            self._step = list(state.step)
 
     def config(self) -> Dict[str, Any]:
         # Transparent logger, it won't change the samples
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 5020a80..1b47be5 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -225,8 +225,8 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert isinstance(state, MapMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, MapGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index f548dc2..d724ee5 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -316,7 +316,7 @@ class PackingDataset(
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
             self._pre_packing_buffer.restore_state(state.pre_packing_buffer)
-            self._pre_packing_lengths = state.pre_packing_lengths
+            self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
 
diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index 76271d6..b34dfb5 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -109,7 +109,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, RepeatMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 09c1405ef775ec82f7528c83a2dbdbb01c43ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:10 +0000
Subject: [PATCH 44/46] fix: keep a checkpoint that is old enough when an epoch
 ends

---
 src/megatron/energon/savable_loader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 8d2c3e4..0e0abb2 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -472,7 +472,13 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     sample_index=self._sample_index,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # Keep a checkpoint that is old enough for the samples which were not retrieved yet, also
+            # if the end of an epoch comes right after the last checkpoint.
+            while (
+                len(self._last_checkpoints) > self.n_checkpoints
+                and self._last_checkpoints[1].sample_index + self.checkpoint_every_min_n_samples
+                <= self._sample_index
+            ):
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
-- 
2.43.0


From ed9d1e062098e25e50fbfd6cd826fe68b2e01e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:56 +0000
Subject: [PATCH 45/46] fix: restore the state of all ranks from a source rank

---
 src/megatron/energon/savable_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 0e0abb2..b33cd66 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1023,12 +1023,12 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 to None. If not set, all ranks are assumed to hold the data.
         """
         assert self._persistent_iterator is None, "Cannot restore state while workers are running"
-        # Only restore multi-rank if state is actually a list and we are in a torch distributed setup.
-        # Otherwise treat as single rank state.
+        # Only restore multi-rank if state is actually a list (or only available at the src_rank) and we
+        # are in a torch distributed setup. Otherwise treat as single rank state.
         if (
             torch.distributed.is_available()
             and torch.distributed.is_initialized()
-            and isinstance(state, list)
+            and (isinstance(state, list) or src_rank is not None)
         ):
             if src_rank is None:
                 # All ranks have the state
-- 
2.43.0


From 66c2632e30a179a85bc41e11cbc6f540a8ce355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:56 +0000
Subject: [PATCH 46/46] fix: save and restore at a rank of the data parallel
 group

---
 src/megatron/energon/savable_loader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index b33cd66..7b2eec2 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -970,6 +970,11 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
+    def _global_rank(self, rank: int) -> int:
+        """Returns the global rank for a rank in the data parallel group."""
+        group = self.worker_config.data_parallel_group
+        return rank if group is None else torch.distributed.get_global_rank(group, rank)
+
     def save_state(
         self, dst_rank: Optional[int] = None
     ) -> Union[SavableDataLoaderState, List[SavableDataLoaderState], None, List[None]]:
@@ -1002,7 +1007,10 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 else:
                     output = None
                 torch.distributed.gather_object(
-                    merged_state, output, dst_rank, group=self.worker_config.data_parallel_group
+                    merged_state,
+                    output,
+                    self._global_rank(dst_rank),
+                    group=self.worker_config.data_parallel_group,
                 )
             return output
         else:
@@ -1045,7 +1053,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 torch.distributed.scatter_object_list(
                     local_object,
                     state,
-                    src=src_rank,
+                    src=self._global_rank(src_rank),
                     group=self.worker_config.data_parallel_group,
                 )
                 state = local_object[0]
-- 
2.43.0

