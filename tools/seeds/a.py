SPECS = [
 dict(NAME="p10-roi-length", PROPERTY="P10",
  NEEDS="a dataset whose region of interest leaves out the end of a chunk, and an index past that chunk",
  BREAKS="dataset[i] returns a sample outside the region or a shifted one",
  EDITS=[("src/litdata/streaming/config.py", """                diff = curr_interval[2] - curr_interval[1]  # roi_start, roi_end
                self.zero_based_roi.append((start, start + diff))""",
   """                diff = curr_interval[3] - curr_interval[1]  # number of items of the chunk from its first one
                self.zero_based_roi.append((start, start + diff))""")],
  DEMO="""
from litdata import StreamingDataset

src = write(os.path.join(TMP, "d"), [4, 4])
ds = StreamingDataset(src)
ds.region_of_interest = [(0, 2), (1, 4)]
expect([int(ds[i]) for i in range(5)], [0, 1, 5, 6, 7], "items")
"""),
 dict(NAME="p14-left-start", PROPERTY="P14",
  NEEDS="a chunk cut twice (three splits in one chunk, or a split of a split)",
  BREAKS="a later split starts inside the earlier one: splits overlap",
  EDITS=[("src/litdata/utilities/subsample.py", "        left_over_chunk_roi[0] = subsampled_chunk_roi[-1][1], left_over_chunk_roi[0][1]  # start from next chunk",
"""        num_taken = subsampled_chunk_roi[-1][1] - subsampled_chunk_roi[-1][0]
        left_over_chunk_roi[0] = num_taken, left_over_chunk_roi[0][1]  # start after the samples taken""")],
  DEMO="""
from litdata import StreamingDataset, train_test_split

src = write(os.path.join(TMP, "d"), [10])
parts = train_test_split(StreamingDataset(src), splits=[0.5, 0.3, 0.1])
got = [int(x) for p in parts for x in p]
expect(len(set(got)), len(got), "number of different samples over the splits")
"""),
 dict(NAME="p15-remainder", PROPERTY="P15",
  NEEDS="several nodes and a number of inputs leaving a remainder larger than the workers of one node",
  BREAKS="some inputs are given to no worker or the loads differ by more than one",
  EDITS=[("src/litdata/processing/data_processor.py", """    for worker_idx in range(len(num_items_per_worker) - 1, -1, -1):
        if reminder == 0:
            break
        num_items_per_worker[worker_idx] += 1
        reminder -= 1
""", """    for worker_idx in range(world_size - 1, world_size - 1 - min(reminder, 2 * num_workers), -1):
        num_items_per_worker[worker_idx] += 1
        reminder -= 1
    num_items_per_worker[-1] += reminder
""")],
  DEMO="""
from litdata.processing.data_processor import _map_items_to_workers_sequentially

os.environ["DATA_OPTIMIZER_NUM_NODES"] = "4"
loads = []
for node in range(4):
    os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(node)
    loads += _map_items_to_workers_sequentially(1, list(range(7)))
expect([x for l in loads for x in l], list(range(7)), "inputs")
expect(max(map(len, loads)) - min(map(len, loads)), 1, "difference of loads")
"""),
 dict(NAME="p06-shared-weights", PROPERTY="P06",
  NEEDS="iterating over all members, with uneven member lengths, for a second epoch of the same object",
  BREAKS="the second epoch misses a member or fails",
  EDITS=[("src/litdata/streaming/combined.py", """        self._original_weights = deepcopy(weights)
        self._weights = deepcopy(weights)
        self._rng""", """        self._original_weights = weights
        self._weights = list(weights) if not iterate_over_all else weights
        self._rng""")],
  DEMO="""
from litdata import StreamingDataset, CombinedStreamingDataset

a = StreamingDataset(write(os.path.join(TMP, "a"), [2]))
b = StreamingDataset(write(os.path.join(TMP, "b"), [7], first=100))
c = CombinedStreamingDataset([a, b], seed=42, iterate_over_all=True)
for epoch in (1, 2, 3):
    try:
        got = sorted(int(x) for x in c)
    except Exception as e:
        got = repr(e)
    expect(got, [0, 1, 100, 101, 102, 103, 104, 105, 106], f"epoch {epoch}")
"""),
]
