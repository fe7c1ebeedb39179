From 5db0a6ac89285f8373acfaaebbac732c06bdc867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 01/35] fix: resume a worker that had already consumed all its
 chunks

With uneven workers, restoring a mid-epoch state raised IndexError in the
workers whose chunks were all consumed before the interruption.
---
 src/litdata/streaming/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 63b682a..8853c94 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -368,6 +368,12 @@ class StreamingDataset(IterableDataset):
         self.worker_chunks = workers_chunks[worker_rank]
         self.worker_intervals = workers_intervals[worker_rank]
 
+        # this worker has already consumed all its chunks, there is nothing left to yield
+        if self.worker_next_chunk_index >= self.num_chunks:
+            self.upcoming_indexes = []
+            self.global_index = self.stop_length
+            return
+
         # replay the indexes for the current chunks
         interval = self.worker_intervals[self.worker_next_chunk_index]
         current_indexes = np.arange(interval[1], interval[2])
-- 
2.43.0


From a5bd5a108ee0b8f2ce95bc5f0517b2a5f84800e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 02/35] fix: recompute the plan when shuffle or drop_last
 change after a length query

set_shuffle and set_drop_last kept the plan cached by an earlier len(dataset), so
a loader built with drop_last or shuffle declared the length of the old setting.
---
 src/litdata/streaming/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 8853c94..f81e293 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -195,9 +195,11 @@ class StreamingDataset(IterableDataset):
 
     def set_shuffle(self, shuffle: bool) -> None:
         self.shuffle = shuffle
+        self.shuffler = None
 
     def set_drop_last(self, drop_last: bool) -> None:
         self.drop_last = drop_last
+        self.shuffler = None
 
     def set_epoch(self, current_epoch: int) -> None:
         """Set the current epoch to the dataset on epoch starts.
-- 
2.43.0


From 528acadff12aff16f76b2f5755171c238efcb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 03/35] fix: len of a combined dataset must not change its
 batch size and number of workers

len(CombinedStreamingDataset) reset both to 1 on the dataset and its members, so a
loader over it then used another plan (and single-sample per-stream batches), in
particular after load_state_dict, which asks the length.
---
 src/litdata/streaming/combined.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index ee5f999..2842fbe 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -113,7 +113,7 @@ class CombinedStreamingDataset(IterableDataset):
         return None
 
     def __len__(self) -> Optional[int]:
-        return self.get_len(1, 1)
+        return self.get_len(self.num_workers, self.batch_size if self.batch_size else 1)
 
     # total length of the datasets
     def _get_total_length(self) -> int:
@@ -147,6 +147,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def set_num_workers(self, num_workers: int) -> None:
         """Set the current number of workers to the datasets."""
+        self.num_workers = num_workers or 1
         for dataset in self._datasets:
             dataset.set_num_workers(num_workers)
 
-- 
2.43.0


From 3e46e45aaf76e1f56741654e3e66f01af578d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:23 +0000
Subject: [PATCH 04/35] fix: forget the restored sample counts of a combined
 dataset after the restored epoch

The counts loaded with load_state_dict were applied again to every following
epoch, which therefore skipped draws and reported wrong counts.
---
 src/litdata/streaming/combined.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index 2842fbe..f9d87e5 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -158,6 +158,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         """Reset the state of the dataset."""
+        self._num_samples_yielded = None
         for dataset in self._datasets:
             dataset.reset_state_dict()
 
-- 
2.43.0


From a0ca5df1fe58ff11d8cb57ca86fc30e66eab33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 05/35] fix: resume a combined dataset with the draws that were
 really made

The replay drew once per yielded sample. It ignored that per-stream batching draws
once per batch, and that exhausting a dataset costs a draw and ends the drawing
from it, so the samples after the restore came in another order.
---
 src/litdata/streaming/combined.py | 37 ++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index f9d87e5..e00bf31 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -251,13 +251,6 @@ class _CombinedDatasetIterator(Iterator):
         self._batch_size = batch_size
         self._is_done = False
 
-        if num_samples_yielded is not None:
-            self._num_samples_yielded = num_samples_yielded
-            for _ in range(sum(num_samples_yielded)):
-                choice_indexes: List[int] = [index for index in self._dataset_indexes if index is not None]
-                choice_weights: List[float] = [w for w in self._weights if w is not None]
-                self._rng.choices(choice_indexes, weights=choice_weights, k=1)
-
         self._use_streaming_dataloader = use_streaming_dataloader
         self._is_done = False
 
@@ -267,6 +260,9 @@ class _CombinedDatasetIterator(Iterator):
         self._samples_yielded_in_batch = 0
         self._cur_dataset_index = -1
 
+        if num_samples_yielded is not None:
+            self._replay(num_samples_yielded)
+
         logger.debug(
             _get_log_msg({"name": "iterating_combined_dataset", "ph": "B", "cname": ChromeTraceColors.LIGHT_BLUE})
         )
@@ -292,14 +288,33 @@ class _CombinedDatasetIterator(Iterator):
                         )
                         raise e
 
-                    self._dataset_indexes[dataset_index] = None
-                    self._weights[dataset_index] = None  # type: ignore
-                    new_sum = sum([w for w in self._weights if w is not None])
-                    self._weights = [None if w is None else w / new_sum for w in self._weights]
+                    self._discard_dataset(dataset_index)
 
         # stop on the first iteration
         return self._get_sample(self._get_dataset_index())
 
+    def _discard_dataset(self, dataset_index: int) -> None:
+        """Stop drawing from an exhausted dataset."""
+        self._dataset_indexes[dataset_index] = None
+        self._weights[dataset_index] = None  # type: ignore
+        new_sum = sum([w for w in self._weights if w is not None])
+        self._weights = [None if w is None else w / new_sum for w in self._weights]
+
+    def _replay(self, num_samples_yielded: List[int]) -> None:
+        """Repeat the draws made to yield the provided number of samples of each dataset."""
+        replayed = [0 for _ in num_samples_yielded]
+        while sum(replayed) < sum(num_samples_yielded):
+            indexes_left = [index for index in self._dataset_indexes if index is not None]
+            if self._iterate_over_all and len(indexes_left) == 1:
+                # there is nothing to draw anymore
+                break
+            dataset_index = self._get_dataset_index()
+            if not self._iterate_over_all or replayed[dataset_index] < num_samples_yielded[dataset_index]:
+                replayed[dataset_index] += 1
+            else:
+                # this draw found the dataset exhausted
+                self._discard_dataset(dataset_index)
+
     def _get_dataset_index(self) -> int:
         if self._batching_method == BatchingMethod.STRATIFIED:
             # For every sample, randomly select a dataset (weighted)
-- 
2.43.0


From f84d55d93040ce047412f7cc5be2d035eef0b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 06/35] fix: reopen the chunk when an item of it is read again
 after close

---
 src/litdata/streaming/item_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ea7dcb8..13e296f 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -301,6 +301,8 @@ class PyTreeLoader(BaseItemLoader):
         if self._open_handle is not None:
             self._open_handle.close()
             self._open_handle = None
+        # the next read has to open its chunk again, even when it is the same one
+        self._chunk_filepath = None
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         logger.debug(
-- 
2.43.0


From c4de7cabbdbf5448ac74a5cb39d39108d823766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:33 +0000
Subject: [PATCH 07/35] fix: weighted distribution must hand out the inputs
 unchanged

---
 src/litdata/processing/data_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1cade64..ae1f95c 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -359,7 +359,11 @@ def _map_items_to_workers_weighted(
         else:
             print(f"Worker {worker_id} gets ({len(worker_items[worker_id])}) items for a total weight of {size}.")
 
-    return [np.random.permutation(worker_items[worker_id]).tolist() for worker_id in worker_ids_this_node]
+    # permute positions and not the items: a numpy array of the items would change their types
+    return [
+        [worker_items[worker_id][i] for i in np.random.permutation(len(worker_items[worker_id]))]
+        for worker_id in worker_ids_this_node
+    ]
 
 
 def _get_num_bytes(item: Any, base_path: str) -> int:
-- 
2.43.0


From 79f55757fa308265ed4af7c4285f2c1a9da325b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 08/35] fix: split the regions of interest of a subsampled
 dataset with their own chunks

---
 src/litdata/utilities/train_test_split.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/litdata/utilities/train_test_split.py b/src/litdata/utilities/train_test_split.py
index b1332c6..cbc27c5 100644
--- a/src/litdata/utilities/train_test_split.py
+++ b/src/litdata/utilities/train_test_split.py
@@ -58,10 +58,9 @@ def train_test_split(
         # load chunks from `index.json` file
         data = load_index_file(input_dir.path)
 
-        original_chunks = data["chunks"]
-        subsampled_chunks = [
-            _org_chunk for _org_chunk in original_chunks if _org_chunk["filename"] in dummy_subsampled_chunk_filename
-        ]
+        # the regions of interest follow the order (and the repetitions) of the subsampled files
+        chunk_by_filename = {_org_chunk["filename"]: _org_chunk for _org_chunk in data["chunks"]}
+        subsampled_chunks = [chunk_by_filename[filename] for filename in dummy_subsampled_chunk_filename]
     else:
         raise ValueError("Couldn't load original chunk file.")
 
-- 
2.43.0


From 2b76b96cb70ac3ca298090f8ea2953186fec0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 09/35] fix: refuse a chunk larger than its 32-bit offsets can
 express

---
 src/litdata/streaming/writer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2771106..c66b2ab 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -256,6 +256,14 @@ class BinaryWriter:
 
         num_items = np.uint32(len(items))  # total number of items in the chunk
         sizes = list(map(len, items))  # list of sizes (length of bytes) of each item
+
+        # the offsets are stored as uint32: a larger chunk would wrap around and its items couldn't be read anymore
+        if 4 * (len(items) + 2) + sum(sizes) > np.iinfo(np.uint32).max:
+            raise ValueError(
+                "A chunk can't hold more than 4 GiB of data."
+                " HINT: Use smaller items or reduce the provided `chunk_size` or `chunk_bytes`."
+            )
+
         offsets = np.array([0] + sizes).cumsum().astype(np.uint32)  # let's say: [0, 10, 30, 45]
 
         # add the number of bytes taken to store (num_items and offsets). Let's say 60: offsets -> [60, 70, 90, 105]
-- 
2.43.0


From 5c86136b1d7714daaa598a8a9c700bea5b133533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 10/35] fix: merge the index files of the workers by rank

---
 src/litdata/streaming/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index c66b2ab..eb293d7 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -498,7 +498,8 @@ class BinaryWriter:
             chunks_info.extend(existing_index["chunks"])
             config = existing_index["config"]
 
-        for index_filename in sorted(index_files):
+        # sort by rank: rank 10 comes after rank 2
+        for index_filename in sorted(index_files, key=lambda f: (len(f), f)):
             chunk_path = os.path.join(self._cache_dir, index_filename)
             with open(chunk_path) as f:
                 data = json.load(f)
-- 
2.43.0


From 16791f97de6fb80afe58a1b46c57ebce47ab578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 11/35] fix: keep states taken or provided earlier unchanged
 when another state is taken

---
 src/litdata/streaming/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index f81e293..12e154d 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -485,7 +485,8 @@ class StreamingDataset(IterableDataset):
             raise RuntimeError("The method `state_dict` should only be called in the main process.")
 
         if self._state_dict is not None:
-            self._state_dict["num_samples_yielded"] = num_samples_yielded
+            # don't modify the state provided by the user, nor a state returned earlier
+            self._state_dict = {**self._state_dict, "num_samples_yielded": num_samples_yielded}
             return self._state_dict
 
         return {
-- 
2.43.0


From 0c6c95e6d73e9ad6680453fe2b85be3965fe4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 12/35] fix: write samples without tokens

---
 src/litdata/streaming/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index eb293d7..b0c04bd 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -290,7 +290,7 @@ class BinaryWriter:
             assert num_items.item() <= self._chunk_size
 
         dim: Optional[int] = None
-        if items[0].dim:
+        if items[0].dim is not None:
             dim = sum([item.dim if item.dim is not None else 0 for item in items])
 
         chunk_info = {
@@ -391,7 +391,7 @@ class BinaryWriter:
         index = self._max_index
         while True:
             item = self._serialized_items.get(index, None)
-            if item:
+            if item is not None:
                 num_bytes += item.bytes
                 num_items += item.dim if item.dim else 1
                 index += 1
-- 
2.43.0


From f27299ca3308e65f923e34289f4d3783ce1169b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 13/35] fix: a block of tokens must outlive the memory map of
 its chunk

---
 src/litdata/streaming/item_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 13e296f..2431599 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -509,10 +509,11 @@ class TokensLoader(BaseItemLoader):
 
         if self._serializer_name == "no_header_tensor":
             # count: number of tokens to read from buffer => `self._block_size`
-            data = torch.frombuffer(buffer, dtype=self._dtype, count=self._block_size, offset=offset)
+            # copied, as the memory map is closed once the chunk has been consumed
+            data = torch.frombuffer(buffer, dtype=self._dtype, count=self._block_size, offset=offset).clone()
         else:
             # count: number of tokens to read from buffer => `self._block_size`
-            data = np.frombuffer(buffer, dtype=self._dtype, count=self._block_size, offset=offset)  # type: ignore
+            data = np.frombuffer(buffer, dtype=self._dtype, count=self._block_size, offset=offset).copy()  # type: ignore
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "E"})
-- 
2.43.0


From df28b0bf2f8ee8871b817d6dcfcced80066a0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 14/35] fix: refuse to read encrypted chunks as tokens

---
 src/litdata/streaming/item_loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 2431599..1f00f72 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -404,6 +404,10 @@ class TokensLoader(BaseItemLoader):
     ) -> None:
         super().setup(config, chunks, serializers, region_of_interest)
 
+        if self._config.get("encryption"):
+            # the chunks are read directly from memory maps
+            raise ValueError("The `TokensLoader` doesn't support encrypted datasets.")
+
         serializer_name, dtype_index = self._data_format[0].split(":")
         if serializer_name not in ["no_header_numpy", "no_header_tensor"]:
             raise ValueError("The provided data format isn't supported.")
-- 
2.43.0


From 4285b5dda08aacfbb7867cfff22cbd044ed84367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 15/35] fix: pickle numpy arrays of python objects instead of
 writing their pointers

---
 src/litdata/streaming/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index abf2c25..e67d163 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -331,7 +331,7 @@ class NumpySerializer(Serializer):
         return np.reshape(tensor, shape)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) > 1
+        return isinstance(item, np.ndarray) and len(item.shape) > 1 and not item.dtype.hasobject
 
 
 class NoHeaderNumpySerializer(Serializer):
@@ -354,7 +354,7 @@ class NoHeaderNumpySerializer(Serializer):
         return np.frombuffer(data, dtype=self._dtype)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) == 1
+        return isinstance(item, np.ndarray) and len(item.shape) == 1 and not item.dtype.hasobject
 
 
 class PickleSerializer(Serializer):
-- 
2.43.0


From dd24c633cef5cdf44696f88193f4d80a6437388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 16/35] fix: refuse a value that the format of the first sample
 would alter

---
 src/litdata/streaming/serializers.py | 19 ++++++++++++++++++-
 src/litdata/streaming/writer.py      |  5 ++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index e67d163..572cf16 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -227,6 +227,8 @@ class BytesSerializer(Serializer):
     """The BytesSerializer serialize and deserialize integer to and from bytes."""
 
     def serialize(self, item: bytes) -> Tuple[bytes, Optional[str]]:
+        if not isinstance(item, (bytes, bytearray)):
+            raise ValueError(f"Expected bytes, found {type(item)}.")
         return item, None
 
     def deserialize(self, item: bytes) -> bytes:
@@ -287,6 +289,8 @@ class NoHeaderTensorSerializer(Serializer):
         self._dtype = _TORCH_DTYPES_MAPPING[int(data_format.split(":")[1])]
 
     def serialize(self, item: torch.Tensor) -> Tuple[bytes, Optional[str]]:
+        if len(item.shape) != 1:
+            raise ValueError(f"Expected a tensor with 1 dimension, found the shape {tuple(item.shape)}.")
         dtype_indice = self._dtype_to_indices[item.dtype]
         return item.numpy().tobytes(order="C"), f"no_header_tensor:{dtype_indice}"
 
@@ -306,6 +310,8 @@ class NumpySerializer(Serializer):
         self._dtype_to_indices = {v: k for k, v in _NUMPY_DTYPES_MAPPING.items()}
 
     def serialize(self, item: np.ndarray) -> Tuple[bytes, Optional[str]]:
+        if item.dtype.hasobject:
+            raise ValueError("An array of python objects can't be stored as a numeric array.")
         dtype_indice = self._dtype_to_indices[item.dtype]
         data = [np.uint32(dtype_indice).tobytes()]
         data.append(np.uint32(len(item.shape)).tobytes())
@@ -346,6 +352,8 @@ class NoHeaderNumpySerializer(Serializer):
         self._dtype = _NUMPY_DTYPES_MAPPING[int(data_format.split(":")[1])]
 
     def serialize(self, item: np.ndarray) -> Tuple[bytes, Optional[str]]:
+        if len(item.shape) != 1:
+            raise ValueError(f"Expected an array with 1 dimension, found the shape {item.shape}.")
         dtype_indice: int = self._dtype_to_indices[item.dtype]
         return item.tobytes(order="C"), f"no_header_numpy:{dtype_indice}"
 
@@ -433,7 +441,13 @@ class NumericSerializer:
         self.size = self.dtype().nbytes
 
     def serialize(self, obj: Any) -> Tuple[bytes, Optional[str]]:
-        return self.dtype(obj).tobytes(), None
+        value = self.dtype(obj)
+        number = obj.item() if hasattr(obj, "item") else obj
+        # only a scalar of the same value can be restored
+        if getattr(obj, "shape", ()) != () or (value.item() != number and number == number):
+            # it can happen when the format was inferred from another sample
+            raise ValueError(f"The value {obj} can't be stored as {self.dtype.__name__} without altering it.")
+        return value.tobytes(), None
 
     def deserialize(self, data: bytes) -> Any:
         return np.frombuffer(data, self.dtype)[0]
@@ -467,6 +481,9 @@ class BooleanSerializer(Serializer):
         Returns:
             Tuple containing the serialized bytes and None for the format string
         """
+        if getattr(item, "shape", ()) != () or bool(item) != item:
+            # it can happen when the format was inferred from another sample
+            raise ValueError(f"The value {item} can't be stored as a boolean without altering it.")
         return np.bool_(item).tobytes(), None
 
     def deserialize(self, data: bytes) -> bool:
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index b0c04bd..facd35e 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -201,7 +201,10 @@ class BinaryWriter:
         assert data_format
         for element, item_format in zip(item, data_format):
             serializer = self._serializers_extra[item_format]
-            serialized_item, _ = serializer.serialize(element)
+            serialized_item, name = serializer.serialize(element)
+            if name and name.startswith("no_header") and name != item_format:
+                # the data type is only stored once, within the format
+                raise ValueError(f"Expected an item with the format `{item_format}`, found `{name}`.")
             data.append(serialized_item)
             sizes.append(serializer.size if hasattr(serializer, "size") else len(serialized_item))
 
-- 
2.43.0


From 9f722d2e27ed38e273292ac3920c06d7554ecce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 17/35] fix: store the leaves of every sample in the order of
 the first one

---
 src/litdata/streaming/writer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index facd35e..3eb203e 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -176,11 +176,21 @@ class BinaryWriter:
             self._data_format = data_format
             self._data_spec = data_spec
         else:
+            if data_spec != self._data_spec:
+                flattened = self._flatten_as_first_sample(items)
             # tiny optimization to avoid looping over all the data format
             self._serialize_with_data_format(flattened, sizes, data, self._data_format)
 
         return self._item_loader.encode_data(data, sizes, flattened)
 
+    def _flatten_as_first_sample(self, items: Any) -> List[Any]:
+        """Flatten a sample in the order of the first one, as its structure is the only one stored in the index."""
+        assert self._data_spec is not None
+        flattened = self._data_spec.flatten_up_to(items)
+        if any(not tree_flatten(item)[1].is_leaf() for item in flattened):
+            raise ValueError("All the samples should have the same structure.")
+        return flattened
+
     def _serialize(self, item: Any, sizes: List[int], data: List[bytes]) -> str:
         """Serialize a given item and append its size and bytes to the sizes and data array."""
         for serializer_name, serializer in self._serializers.items():
-- 
2.43.0


From 9662c4d17ae660b7fccaad60175dc2f739f5582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 18/35] fix: refuse the structures whose stored description
 can't be read back

---
 src/litdata/utilities/_pytree.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/litdata/utilities/_pytree.py b/src/litdata/utilities/_pytree.py
index 5fda0ec..a4e0ff4 100644
--- a/src/litdata/utilities/_pytree.py
+++ b/src/litdata/utilities/_pytree.py
@@ -566,8 +566,17 @@ def _defaultdict_unflatten(
     return defaultdict(default_factory, _dict_unflatten(values, dict_context))
 
 
+def _check_json_keys(keys: List[Any]) -> None:
+    if json.loads(json.dumps(keys)) != keys:
+        raise TypeError(f"Unable to serialize the keys {keys}, as they can't be restored from json.")
+
+
 def _defaultdict_serialize(context: Context) -> DumpableContext:
     default_factory, dict_context = context
+    module = sys.modules.get(default_factory.__module__)
+    if getattr(module, default_factory.__qualname__, None) is not default_factory:
+        raise TypeError(f"Unable to serialize the default factory {default_factory}, as it can't be imported.")
+    _check_json_keys(dict_context)
     json_defaultdict = {
         "default_factory_module": default_factory.__module__,
         "default_factory_name": default_factory.__qualname__,
@@ -1368,6 +1377,8 @@ def _treespec_to_json(treespec: TreeSpec) -> _TreeSpecSchema:
         )
 
     if serialize_node_def.to_dumpable_context is None:
+        if treespec.type in STANDARD_DICT_TYPES:
+            _check_json_keys(treespec.context)
         try:
             serialized_context = json.dumps(treespec.context)
         except TypeError as e:
-- 
2.43.0


From 542744e747aefbce9b0e4db12de5473c59d83596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 19/35] fix: delete only the objects of a remote directory, and
 all of them

---
 src/litdata/streaming/fs_provider.py | 33 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index c85ccb8..c939ea7 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -112,10 +112,10 @@ class GCPFsProvider(FsProvider):
     def delete_file_or_directory(self, path: str) -> None:
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
         bucket = self.client.bucket(bucket_name)
-        # if it's a single file, only one will match the prefix
-        blobs = bucket.list_blobs(prefix=blob_path)
+        blobs = bucket.list_blobs(prefix=blob_path.rstrip("/"))
         for blob in blobs:
-            blob.delete()
+            if _is_file_or_within_directory(blob.name, blob_path):
+                blob.delete()
 
     def exists(self, path: str) -> bool:
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
@@ -190,13 +190,16 @@ class S3FsProvider(FsProvider):
         """Delete the file or the directory."""
         bucket_name, blob_path = get_bucket_and_path(path, "s3")
 
-        # List objects under the given path
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=blob_path)
-
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+        # List objects under the given path, page by page
+        request = {"Bucket": bucket_name, "Prefix": blob_path.rstrip("/")}
+        while True:
+            objects = self.client.client.list_objects_v2(**request)
+            for obj in objects.get("Contents", []):
+                if _is_file_or_within_directory(obj["Key"], blob_path):
+                    self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+            if not objects.get("IsTruncated"):
+                break
+            request["ContinuationToken"] = objects["NextContinuationToken"]
 
     def exists(self, path: str) -> bool:
         import botocore
@@ -224,6 +227,16 @@ class S3FsProvider(FsProvider):
         return not objects["KeyCount"] > 0
 
 
+def _is_file_or_within_directory(blob_path: str, path: str) -> bool:
+    """Whether an object found by its prefix is the given file, or is within the given directory.
+
+    The prefix alone also matches the siblings whose name starts the same.
+
+    """
+    directory = path.rstrip("/") + "/" if path else ""
+    return blob_path == path or blob_path.startswith(directory)
+
+
 def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tuple[str, str]:
     """Parse the remote filepath and return the bucket name and the blob path.
 
-- 
2.43.0


From b9238513f046189442642b5638e3151858bc5b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 20/35] fix: whether a remote directory is empty depends on its
 own objects

---
 src/litdata/streaming/fs_provider.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index c939ea7..df8b330 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -126,8 +126,8 @@ class GCPFsProvider(FsProvider):
     def is_empty(self, path: str) -> bool:
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
         bucket = self.client.bucket(bucket_name)
-        # List blobs with the given prefix
-        blobs = bucket.list_blobs(prefix=blob_path)
+        # List blobs within the directory
+        blobs = bucket.list_blobs(prefix=blob_path.rstrip("/") + "/" if blob_path else "")
         # If no blobs are found, it's considered empty
         return not any(blobs)
 
@@ -218,10 +218,12 @@ class S3FsProvider(FsProvider):
     def is_empty(self, path: str) -> bool:
         obj = parse.urlparse(path)
 
+        directory = obj.path.strip("/")
+
         objects = self.client.client.list_objects_v2(
             Bucket=obj.netloc,
             Delimiter="/",
-            Prefix=obj.path.lstrip("/").rstrip("/") + "/",
+            Prefix=directory + "/" if directory else "",
         )
 
         return not objects["KeyCount"] > 0
-- 
2.43.0


From 203d2ae5d26cf60ed8df16fa59291749fa8eef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 21/35] fix: resume from the checkpoints of a remote directory,
 and never clear it unless asked to

---
 src/litdata/streaming/resolver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 6233f60..fcf835b 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -319,12 +319,12 @@ def _assert_dir_has_index_file(
 
     # Check the index file exists
     try:
-        fs_provider.exists(os.path.join(prefix, "index.json"))
-        has_index_file = True
+        has_index_file = fs_provider.exists(os.path.join(prefix, "index.json"))
     except Exception:
         has_index_file = False
 
-    if has_index_file and mode is None:
+    # without an index file, the files may only be kept to resume from their checkpoints
+    if mode is None and (has_index_file or not use_checkpoint):
         raise RuntimeError(
             f"The provided output_dir `{output_dir.path}` already contains an optimized immutable datasets."
             "\n HINT: Did you consider changing the `output_dir` with your own versioning as a suffix?"
@@ -332,7 +332,7 @@ def _assert_dir_has_index_file(
         )
 
     # delete all the files (including the index file in overwrite mode)
-    if mode == "overwrite" or (mode is None and not use_checkpoint):
+    if mode == "overwrite":
         fs_provider.delete_file_or_directory(output_dir.url)
 
 
-- 
2.43.0


From 75ae034ee759ddad88ec32d661f2be5f883b9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 22/35] fix: resume from a checkpoint with the format of its
 samples

---
 src/litdata/processing/data_processor.py |  9 +++++++++
 src/litdata/streaming/writer.py          | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index ae1f95c..75014bf 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -474,6 +474,7 @@ class BaseWorker:
         checkpoint_next_index: Optional[int] = None,
         item_loader: Optional[BaseItemLoader] = None,
         storage_options: Dict[str, Any] = {},
+        checkpoint_config: Optional[Dict[str, Any]] = None,
     ) -> None:
         """The BaseWorker is responsible to process the user data."""
         self.worker_index = worker_index
@@ -508,6 +509,7 @@ class BaseWorker:
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
         self.checkpoint_next_index: Optional[int] = checkpoint_next_index
+        self.checkpoint_config: Optional[Dict[str, Any]] = checkpoint_config
         self.storage_options = storage_options
 
     def run(self) -> None:
@@ -636,6 +638,8 @@ class BaseWorker:
 
             self.cache._writer._chunks_info = self.checkpoint_chunks_info
             self.cache._writer._chunk_index += self.checkpoint_next_index
+            if self.checkpoint_config is not None:
+                self.cache._writer.load_checkpoint_config(self.checkpoint_config)
 
     def _try_upload(self, data: Optional[Union[str, Tuple[str, str]]]) -> None:
         if not data or (self.output_dir.url if self.output_dir.url else self.output_dir.path) is None:
@@ -1076,6 +1080,7 @@ class DataProcessor:
         self.use_checkpoint = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[List[Dict[str, Any]]]] = None
         self.checkpoint_next_index: Optional[List[int]] = None
+        self.checkpoint_configs: Optional[List[Optional[Dict[str, Any]]]] = None
         self.item_loader = item_loader
         self.storage_options = storage_options
 
@@ -1303,6 +1308,7 @@ class DataProcessor:
                 self.checkpoint_next_index[worker_idx] if self.checkpoint_next_index else None,
                 self.item_loader,
                 self.storage_options,
+                self.checkpoint_configs[worker_idx] if self.checkpoint_configs else None,
             )
             worker.start()
             workers.append(worker)
@@ -1413,6 +1419,7 @@ class DataProcessor:
 
         self.checkpoint_chunks_info = [default_chunk_info for _ in range(self.num_workers)]
         self.checkpoint_next_index = [0 for _ in range(self.num_workers)]
+        self.checkpoint_configs = [None for _ in range(self.num_workers)]
 
         if self.output_dir.url is None:
             assert self.output_dir.path
@@ -1447,6 +1454,7 @@ class DataProcessor:
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+                self.checkpoint_configs[i] = checkpoint["config"]
             return
 
         obj = parse.urlparse(self.output_dir.url)
@@ -1491,6 +1499,7 @@ class DataProcessor:
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+                self.checkpoint_configs[i] = checkpoint["config"]
         return
 
 
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 3eb203e..fb06336 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -26,7 +26,7 @@ from litdata.processing.utilities import get_worker_rank
 from litdata.streaming.compression import _COMPRESSORS, Compressor
 from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader
 from litdata.streaming.serializers import Serializer, _get_serializers
-from litdata.utilities._pytree import PyTree, tree_flatten, treespec_dumps
+from litdata.utilities._pytree import PyTree, tree_flatten, treespec_dumps, treespec_loads
 from litdata.utilities.encryption import Encryption, EncryptionLevel
 from litdata.utilities.env import _DistributedEnv, _WorkerEnv
 from litdata.utilities.format import _convert_bytes_to_int, _human_readable_bytes
@@ -156,6 +156,15 @@ class BinaryWriter:
             "item_loader": self._item_loader.__class__.__name__,
         }
 
+    def load_checkpoint_config(self, config: Dict[str, Any]) -> None:
+        """Continue with the format of the samples written before the checkpoint was saved."""
+        if config["data_format"] is None:
+            return
+        self._data_format = config["data_format"]
+        self._data_spec = treespec_loads(config["data_spec"])
+        for name in config["data_format"]:
+            self._serializers_extra[name] = self._serializers[name.split(":")[0]]
+
     def serialize(self, items: Any) -> Tuple[bytes, Optional[int]]:
         """Serialize a dictionary into its binary format."""
         # Flatten the items provided by the users
-- 
2.43.0


From c30de7e402905ffebedc3ceb444c162658045497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 23/35] fix: a checkpoint counts the inputs that are done, and
 not their samples

---
 src/litdata/processing/data_processor.py | 23 ++++++++++++++++++-----
 src/litdata/streaming/cache.py           |  6 ++++--
 src/litdata/streaming/writer.py          | 16 +++++++++++++---
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 75014bf..d374854 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -505,6 +505,7 @@ class BaseWorker:
         self._counter = 0
         self._last_time = time()
         self._index_counter = 0
+        self._num_inputs_by_sample: List[int] = []
         self.writer_starting_chunk_index: int = writer_starting_chunk_index
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
@@ -636,7 +637,7 @@ class BaseWorker:
             assert isinstance(self.checkpoint_next_index, int)
             assert isinstance(self.checkpoint_chunks_info, list)
 
-            self.cache._writer._chunks_info = self.checkpoint_chunks_info
+            self.cache._writer._chunks_info = list(self.checkpoint_chunks_info)
             self.cache._writer._chunk_index += self.checkpoint_next_index
             if self.checkpoint_config is not None:
                 self.cache._writer.load_checkpoint_config(self.checkpoint_config)
@@ -774,8 +775,8 @@ class BaseWorker:
                 self._try_upload(chunk_filepath)
                 self._index_counter += 1
                 if self.use_checkpoint:
-                    checkpoint_filepath = self.cache.save_checkpoint()
-                    self._try_upload(checkpoint_filepath)
+                    self._num_inputs_by_sample.append(self._counter + 1)
+                    self._save_checkpoint()
         except Exception as e:
             raise RuntimeError(f"Failed processing {self.items[index]=}; {index=}") from e
 
@@ -792,8 +793,20 @@ class BaseWorker:
                     self.to_upload_queues[i % self.num_uploaders].put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
-            checkpoint_filepath = self.cache.save_checkpoint()
-            self._try_upload(checkpoint_filepath)
+            self._save_checkpoint()
+
+    def _save_checkpoint(self) -> None:
+        """Save and upload a checkpoint with the number of inputs whose samples are all within the written chunks.
+
+        An input may have no sample, so this isn't the number of samples.
+
+        """
+        num_samples = sum(chunk["chunk_size"] for chunk in self.cache._writer._chunks_info)
+        num_samples -= sum(chunk["chunk_size"] for chunk in self.checkpoint_chunks_info or [])
+        done_till_index = self.checkpoint_next_index or 0
+        if num_samples > 0:
+            done_till_index += self._num_inputs_by_sample[num_samples - 1]
+        self._try_upload(self.cache.save_checkpoint(done_till_index=done_till_index))
 
     def _handle_data_transform_recipe(self, index: int) -> None:
         """Used by map fn to run the user provided fn on each item of the input data.
diff --git a/src/litdata/streaming/cache.py b/src/litdata/streaming/cache.py
index d045d5d..a8b22f8 100644
--- a/src/litdata/streaming/cache.py
+++ b/src/litdata/streaming/cache.py
@@ -165,6 +165,8 @@ class Cache:
     def _get_chunk_index_from_index(self, index: int) -> Tuple[int, int]:
         return self._reader._get_chunk_index_from_index(index)
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
         """Save the current state of the writer to a checkpoint."""
-        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir)
+        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir, done_till_index=done_till_index)
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index fb06336..68b2a54 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -570,8 +570,17 @@ class BinaryWriter:
             )
         return out
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
-        """Save the current state of the writer to a checkpoint."""
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
+        """Save the current state of the writer to a checkpoint.
+
+        Args:
+            checkpoint_dir: The name of the directory of the checkpoints within the cache.
+            done_till_index: The number of inputs whose samples are all within the chunks. It is the number of
+                samples within the chunks by default.
+
+        """
         checkpoint_dir = os.path.join(self._cache_dir, checkpoint_dir)
         if not os.path.exists(checkpoint_dir):
             os.makedirs(checkpoint_dir, exist_ok=True)
@@ -581,7 +590,8 @@ class BinaryWriter:
             return None
 
         unique_id = uuid.uuid4().hex
-        done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
+        if done_till_index is None:
+            done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
 
         checkpoint_filepath = os.path.join(checkpoint_dir, f"checkpoint-{self.rank}-{unique_id}.json")
 
-- 
2.43.0


From 2db45c82290288bfb25c10d5b485690c577263f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 24/35] fix: upload a checkpoint after the chunks it refers to

---
 src/litdata/processing/data_processor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index d374854..3c3e29c 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -651,7 +651,11 @@ class BaseWorker:
         else:
             assert os.path.exists(data[-1]), data
 
-        self.to_upload_queues[self._counter % self.num_uploaders].put(data)
+        self._upload_queue(self._counter).put(data)
+
+    def _upload_queue(self, index: int) -> Queue:
+        # a checkpoint should only be uploaded after the chunks it refers to
+        return self.to_upload_queues[0 if self.use_checkpoint else index % self.num_uploaders]
 
     def _collect_paths(self) -> None:
         if self.no_downloaders:
@@ -790,7 +794,7 @@ class BaseWorker:
         if chunks_filepaths and len(self.to_upload_queues):
             for i, chunk_filepath in enumerate(chunks_filepaths):
                 if isinstance(chunk_filepath, str) and os.path.exists(chunk_filepath):
-                    self.to_upload_queues[i % self.num_uploaders].put(chunk_filepath)
+                    self._upload_queue(i).put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
             self._save_checkpoint()
-- 
2.43.0


From 7af21fa24cd399a5e48099cfbbf0e3999bfd30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 25/35] fix: with checkpoints, process the inputs in order

---
 src/litdata/processing/data_processor.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 3c3e29c..5b42d2a 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -29,7 +29,7 @@ from multiprocessing import Process, Queue
 from pathlib import Path
 from queue import Empty
 from time import sleep, time
-from typing import Any, Dict, List, Optional, Tuple, TypeVar, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, TypeVar, Union
 from urllib import parse
 
 import numpy as np
@@ -506,6 +506,7 @@ class BaseWorker:
         self._last_time = time()
         self._index_counter = 0
         self._num_inputs_by_sample: List[int] = []
+        self._ready_indexes: Set[int] = set()
         self.writer_starting_chunk_index: int = writer_starting_chunk_index
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
@@ -554,7 +555,7 @@ class BaseWorker:
         num_downloader_finished = 0
 
         while True:
-            index = self.ready_to_process_queue.get()
+            index = self._get_next_index()
 
             if index is None:
                 num_downloader_finished += 1
@@ -604,6 +605,22 @@ class BaseWorker:
             except Empty:
                 pass
 
+    def _get_next_index(self) -> Optional[int]:
+        """Returns the index of the next input to process, or None when a downloader is done.
+
+        The files of the inputs may be ready in any order, but a checkpoint only holds how many of them are done.
+
+        """
+        if not self.use_checkpoint:
+            return self.ready_to_process_queue.get()
+        while self._counter not in self._ready_indexes:
+            index = self.ready_to_process_queue.get()
+            if index is None:
+                return None
+            self._ready_indexes.add(index)
+        self._ready_indexes.remove(self._counter)
+        return self._counter
+
     def _set_environ_variables(self) -> None:
         # set the optimizer global rank and world_size
         os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(_get_node_rank() * self.num_workers + self.worker_index)
-- 
2.43.0


From 1592aee3331800116a91062f6d211cdb7d25ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 26/35] fix: count the chunks of a resumed run once when
 appending

---
 src/litdata/streaming/writer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 68b2a54..1d047f2 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -513,11 +513,10 @@ class BinaryWriter:
         files = os.listdir(self._cache_dir)
         index_files = [f for f in files if f.endswith(_INDEX_FILENAME)]
 
-        chunks_info = []
+        chunks_info: List[Dict[str, Any]] = []
         config = None
 
         if existing_index is not None:
-            chunks_info.extend(existing_index["chunks"])
             config = existing_index["config"]
 
         # sort by rank: rank 10 comes after rank 2
@@ -539,6 +538,12 @@ class BinaryWriter:
 
             os.remove(chunk_path)
 
+        if existing_index is not None:
+            # a run resumed after its index was written finds its own chunks within the existing ones
+            filenames = {chunk["filename"] for chunk in chunks_info}
+            existing_chunks = [chunk for chunk in existing_index["chunks"] if chunk["filename"] not in filenames]
+            chunks_info = existing_chunks + chunks_info
+
         if node_rank is None:
             with open(os.path.join(self._cache_dir, _INDEX_FILENAME), "w") as f:
                 data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
-- 
2.43.0


From 8badc7b5cd0c590bd3f5cccc970a3155d238b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 27/35] fix: fail when a file couldn't be uploaded, and keep it

---
 src/litdata/processing/data_processor.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 5b42d2a..0d593f7 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -232,6 +232,8 @@ def _upload_fn(
     if obj.scheme in _SUPPORTED_PROVIDERS:
         fs_provider = _get_fs_provider(output_dir.url, storage_options)
 
+    error: Optional[Exception] = None
+
     while True:
         data: Optional[Union[str, Tuple[str, str]]] = upload_queue.get()
 
@@ -244,6 +246,9 @@ def _upload_fn(
 
         # Terminate the process if we received a termination signal
         if local_filepath is None:
+            if error is not None:
+                # let the worker know
+                raise error
             return
 
         # Upload the file to the target cloud storage
@@ -268,7 +273,10 @@ def _upload_fn(
                     output_filepath,
                 )
             except Exception as e:
+                # keep the file, and upload the next ones
                 print(e)
+                error = e
+                continue
 
         elif output_dir.path:
             output_filepath = output_dir.path
@@ -283,8 +291,13 @@ def _upload_fn(
 
             output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
-            os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
-            shutil.copy(local_filepath, output_filepath)
+            try:
+                os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
+                shutil.copy(local_filepath, output_filepath)
+            except Exception as e:
+                print(e)
+                error = e
+                continue
         else:
             raise ValueError(f"The provided {output_dir.path} isn't supported.")
 
@@ -574,6 +587,9 @@ class BaseWorker:
                         for uploader in self.uploaders:
                             uploader.join()
 
+                        if any(uploader.exitcode for uploader in self.uploaders):
+                            raise RuntimeError("Some files couldn't be uploaded to the output directory.")
+
                     if self.remove:
                         assert self.remover
                         self.remove_queue.put(None)
-- 
2.43.0


From c9129b7670f27277d631c2ffb1b057c1ac49e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 28/35] fix: never delete the input files that are outside of
 the input directory

---
 src/litdata/processing/data_processor.py | 32 ++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 0d593f7..a1f88d9 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -95,6 +95,18 @@ def _get_cache_data_dir(name: Optional[str] = None) -> str:
     return os.path.join(cache_dir, name.lstrip("/"))
 
 
+def _get_cached_path(path: str, input_dir: Dir, cache_dir: str) -> str:
+    """Returns the path of the copy of a file of the input directory within the cache directory.
+
+    The files outside of the input directory aren't copied: their own path is returned.
+
+    """
+    if not input_dir or not input_dir.path:
+        return path
+    directory = input_dir.path.rstrip("/") + "/"
+    return os.path.join(cache_dir, path[len(directory) :]) if path.startswith(directory) else path
+
+
 def _wait_for_file_to_exist(remote_filepath: str, sleep_time: int = 2, storage_options: Dict[str, Any] = {}) -> Any:
     """Wait until the file exists."""
     file_exists = False
@@ -141,7 +153,7 @@ def _download_data_target(
 
         # 5. Check whether all the files are already downloaded
         if input_dir.path and all(
-            os.path.exists(p.replace(input_dir.path, cache_dir) if input_dir else p) for p in paths
+            os.path.exists(_get_cached_path(p, input_dir, cache_dir)) for p in paths
         ):
             queue_out.put(index)
             continue
@@ -154,10 +166,13 @@ def _download_data_target(
             # 7. Download all the required paths to unblock the current index
             for path in paths:
                 if input_dir.path:
-                    local_path = path.replace(input_dir.path, cache_dir)
+                    local_path = _get_cached_path(path, input_dir, cache_dir)
+                    if local_path == path and os.path.exists(path):
+                        # the file is outside of the input directory: use it in place
+                        continue
 
                 if input_dir.url and input_dir.path:
-                    path = path.replace(input_dir.path, input_dir.url)
+                    path = path.replace(input_dir.path, input_dir.url, 1)
 
                 obj = parse.urlparse(path)
 
@@ -195,8 +210,8 @@ def _remove_target(input_dir: Dir, cache_dir: str, queue_in: Queue) -> None:
         # 3. Iterate through the paths and delete them sequentially.
         for path in paths:
             if input_dir:
-                if not path.startswith(cache_dir) and input_dir.path is not None:
-                    path = path.replace(input_dir.path, cache_dir)
+                if not path.startswith(cache_dir.rstrip("/") + "/"):
+                    path = _get_cached_path(path, input_dir, cache_dir)
 
                 if os.path.exists(path):
                     os.remove(path)
@@ -613,7 +628,10 @@ class BaseWorker:
                 self._last_time = time()
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
-                self.remove_queue.put(self.paths[index])
+                # only the copies are removed: the files outside of the input directory were used in place
+                self.remove_queue.put(
+                    [p for p in self.paths[index] if _get_cached_path(p, self.input_dir, self.cache_data_dir) != p]
+                )
 
             try:
                 self.stop_queue.get(timeout=0.0001)
@@ -725,7 +743,7 @@ class BaseWorker:
                     and isinstance(self.input_dir.path, str)
                     and not self.input_dir.path.startswith("/teamspace/studios/this_studio")
                 ):
-                    path = path.replace(self.input_dir.path, self.cache_data_dir)
+                    path = _get_cached_path(path, self.input_dir, self.cache_data_dir)
                 flattened_item[index] = path
 
             self.paths.append(paths)
-- 
2.43.0


From cdaf261827af64ddc56a2e9b171f994592198e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 29/35] fix: append from several nodes without overwriting or
 duplicating chunks

---
 src/litdata/processing/data_processor.py | 4 +++-
 src/litdata/processing/functions.py      | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index a1f88d9..b133f3c 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -980,7 +980,9 @@ class DataChunkRecipe(DataRecipe):
 
         merge_cache = Cache(cache_dir, chunk_bytes=1)
         node_rank = _get_node_rank()
-        merge_cache._merge_no_wait(node_rank if num_nodes > 1 else None, getattr(self, "existing_index", None))
+        # the index of the first node holds the existing chunks
+        existing_index = getattr(self, "existing_index", None) if node_rank == 0 else None
+        merge_cache._merge_no_wait(node_rank if num_nodes > 1 else None, existing_index)
 
         self._upload_index(output_dir, cache_dir, num_nodes, node_rank)
 
diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index cac29eb..f4b464a 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -30,7 +30,7 @@ import torch
 from litdata import __version__
 from litdata.constants import _INDEX_FILENAME, _IS_IN_STUDIO, _SUPPORTED_PROVIDERS
 from litdata.helpers import _check_version_and_prompt_upgrade
-from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe
+from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe, _get_node_rank
 from litdata.processing.readers import BaseReader
 from litdata.processing.utilities import (
     _get_work_dir,
@@ -482,8 +482,10 @@ def optimize(
         if existing_index_file_content is not None:
             for chunk in existing_index_file_content["chunks"]:
                 rank, index = extract_rank_and_index_from_filename(chunk["filename"])
+                # the chunks are named after the global rank of their worker
+                rank -= _get_node_rank() * num_workers
 
-                if rank < num_workers and state_dict[rank] <= index:
+                if 0 <= rank < num_workers and state_dict[rank] <= index:
                     state_dict[rank] = index + 1  # +1 because we want to start from the next index
 
         data_processor = DataProcessor(
-- 
2.43.0


From 80ec6770ef30a00e1450d3793ab270487b734794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 30/35] fix: refuse to merge datasets which aren't read the
 same way

---
 src/litdata/processing/functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index f4b464a..49aa81c 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -629,6 +629,12 @@ def merge_datasets(
         if input_dirs_file_content[0]["config"]["compression"] != input_dir_file_content["config"]["compression"]:  # type: ignore
             raise ValueError("Your are trying to merge datasets with different compression configuration.")
 
+        # the merged dataset is read with the config of the first one
+        for key, default in (("data_spec", None), ("encryption", None), ("item_loader", "PyTreeLoader")):
+            first = input_dirs_file_content[0]["config"].get(key, default)  # type: ignore
+            if first != input_dir_file_content["config"].get(key, default):  # type: ignore
+                raise ValueError(f"Your are trying to merge datasets with a different `{key}` configuration.")
+
     chunks = []
     copy_infos: List[CopyInfo] = []
     counter = 0
-- 
2.43.0


From 5de8b876fd00deeac6df9d62e1ac5490f8fdf796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 31/35] fix: clear the chunks of a local directory, and no
 other files

---
 src/litdata/streaming/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index fcf835b..cd06913 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -293,7 +293,7 @@ def _assert_dir_has_index_file(
 
             if mode == "overwrite" or (mode is None and not use_checkpoint):
                 for file in os.listdir(output_dir.path):
-                    if file.endswith(".bin"):
+                    if file.startswith("chunk-") and file.endswith(".bin"):
                         os.remove(os.path.join(output_dir.path, file))
 
                 # delete checkpoints
-- 
2.43.0


From 090b5c0b502f5eb462bfae2bf5c65d0428a1e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 32/35] fix: balance the inputs of optimize by the provided
 weights

---
 src/litdata/processing/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 49aa81c..3c7b860 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -496,6 +496,7 @@ def optimize(
             num_downloaders=num_downloaders,
             num_uploaders=num_uploaders,
             reorder_files=reorder_files,
+            weights=weights,
             reader=reader,
             state_dict=state_dict,
             use_checkpoint=use_checkpoint,
-- 
2.43.0


From b5fb825d98c3de7ccce4ba9f54166dc7e18da39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 33/35] fix: find rows in row groups of different sizes

---
 src/litdata/streaming/item_loader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 1f00f72..3f0ed60 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -712,9 +712,14 @@ class ParquetLoader(BaseItemLoader):
 
         # Determine the row group and the row index within the row group
         parquet_file = self._df[chunk_index]
-        num_rows_per_row_group = parquet_file.metadata.row_group(0).num_rows
-        row_group_index = row_index // num_rows_per_row_group
-        row_index_within_group = row_index % num_rows_per_row_group
+        row_group_index = 0
+        row_index_within_group = row_index
+        num_rows_in_row_group = parquet_file.metadata.row_group(row_group_index).num_rows
+        # the row groups of a file don't need to have the same number of rows
+        while row_index_within_group >= num_rows_in_row_group:
+            row_index_within_group -= num_rows_in_row_group
+            row_group_index += 1
+            num_rows_in_row_group = parquet_file.metadata.row_group(row_group_index).num_rows
 
         # Check if the row group is already loaded
         if chunk_index in self._chunk_row_groups and row_group_index in self._chunk_row_groups[chunk_index]:
@@ -737,7 +742,7 @@ class ParquetLoader(BaseItemLoader):
 
         # Check if the row group has been fully read and release memory if necessary
         read_count = self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-        if read_count >= num_rows_per_row_group:
+        if read_count >= num_rows_in_row_group:
             # Release memory for the fully read row group
             del self._chunk_row_groups[chunk_index][row_group_index]
             del self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-- 
2.43.0


From 701f4ad0fd0f366ceea9bf42612bb583cd646a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 34/35] fix: sample from fewer indices than replicas

---
 src/litdata/streaming/sampler.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/sampler.py b/src/litdata/streaming/sampler.py
index 4c67b51..94e2f49 100644
--- a/src/litdata/streaming/sampler.py
+++ b/src/litdata/streaming/sampler.py
@@ -230,11 +230,8 @@ class CacheBatchSampler:
                 batches.append(worker_indices.pop(0))
             counter += 1
 
-        while True:
-            if len(batches[-1]) == 0:
-                batches.pop(-1)
-            else:
-                break
+        while batches and len(batches[-1]) == 0:
+            batches.pop(-1)
 
         yield from batches
 
-- 
2.43.0


From 8de4aa6f5abf10f38e014d50c9d1fa0944844235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 35/35] fix: reshard parquet files of the same name apart

---
 src/litdata/processing/readers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/readers.py b/src/litdata/processing/readers.py
index a1ebdef..6621bf5 100644
--- a/src/litdata/processing/readers.py
+++ b/src/litdata/processing/readers.py
@@ -12,6 +12,7 @@
 # limitations under the License.
 
 import contextlib
+import hashlib
 import os
 from abc import ABC, abstractmethod
 from typing import Any, List
@@ -104,9 +105,6 @@ class ParquetReader(BaseReader):
 
         new_items = []
 
-        cache_folder = os.path.join(self.cache_folder, f"{self.num_rows}")
-        os.makedirs(cache_folder, exist_ok=True)
-
         _tqdm = _get_tqdm_iterator_if_available()
 
         for filepath in filepaths:
@@ -115,6 +113,11 @@ class ParquetReader(BaseReader):
             table = None
             parquet_filename = os.path.basename(filepath)
 
+            # files of the same name can come from different directories
+            digest = hashlib.sha256(os.path.abspath(filepath).encode()).hexdigest()[:16]
+            cache_folder = os.path.join(self.cache_folder, f"{self.num_rows}", digest)
+            os.makedirs(cache_folder, exist_ok=True)
+
             for start in _tqdm(range(0, num_rows, self.num_rows)):
                 end = min(start + self.num_rows, num_rows)
                 chunk_filepath = os.path.join(cache_folder, f"{start}_{end}_{parquet_filename}")
-- 
2.43.0

