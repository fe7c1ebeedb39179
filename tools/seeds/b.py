SPECS = [
 dict(NAME="p05-local-rank", PROPERTY="P05",
  NEEDS="resuming on the second or a later node of a multi-node job, when the workers' chunks have different sizes",
  BREAKS="the position is replayed against the chunks of another rank: samples are repeated or skipped after the restore",
  EDITS=[("src/litdata/streaming/dataset.py", """        worker_start = self.distributed_env.global_rank * num_workers
        worker_end = worker_start + num_workers

        # replay sampling""", """        node_size = self.distributed_env.world_size // self.distributed_env.num_nodes
        worker_start = (self.distributed_env.global_rank % node_size) * num_workers
        worker_end = worker_start + num_workers

        # replay sampling""")],
  DEMO="""
from litdata import StreamingDataset, StreamingDataLoader

src = write(os.path.join(TMP, "d"), [6, 2, 4])
os.environ.update(WORLD_SIZE="2", NNODES="2", GLOBAL_RANK="1")
from litdata.utilities.env import _DistributedEnv

def mk():
    ds = StreamingDataset(src, drop_last=True)
    ds.distributed_env = _DistributedEnv(2, 1, 2)
    return StreamingDataLoader(ds, batch_size=1, num_workers=0)

for k in range(1, 6):
    a = mk()
    it = iter(a)
    for _ in range(k):
        next(it)
    state = a.state_dict()
    rest = [int(x) for x in it]
    b = mk()
    b.load_state_dict(state)
    expect([int(x) for x in b], rest, f"remaining samples after {k}")
"""),
 dict(NAME="p01-small-tail", PROPERTY="P01",
  NEEDS="three or more processes without drop_last and a tail of two batches or more that does not divide among them",
  BREAKS="the tail of the dataset is delivered to no process",
  EDITS=[("src/litdata/utilities/shuffle.py", """            if not drop_last and left_items > 0:
""", """            if not drop_last and 0 < left_items < 2 * batch_size:
""")],
  DEMO="""
from litdata import StreamingDataset
from litdata.utilities.env import _DistributedEnv

src = write(os.path.join(TMP, "d"), [5, 3, 3])
out = []
for rank in range(4):
    ds = StreamingDataset(src, drop_last=False)
    ds.distributed_env = _DistributedEnv(4, rank, 1)
    ds.set_drop_last(False)
    out += [int(x) for x in ds]
expect(sorted(out), list(range(11)), "samples")
"""),
 dict(NAME="p02-whole-rounds", PROPERTY="P02",
  NEEDS="several nodes, several workers and a number of batches per process that is no multiple of them",
  BREAKS="more than a batch per process is dropped",
  EDITS=[("src/litdata/utilities/shuffle.py", """        rem_batches = num_batches_per_rank % num_workers
        tmp_arr = [base_batches + (1 if i < rem_batches else 0) for i in range(num_workers)]
""", """        # keep the workers of all the nodes in step
        rem_batches = 0 if drop_last and distributed_env.num_nodes > 1 else num_batches_per_rank % num_workers
        tmp_arr = [base_batches + (1 if i < rem_batches else 0) for i in range(num_workers)]
""")],
  DEMO="""
from litdata import StreamingDataset
from litdata.utilities.env import _DistributedEnv

src = write(os.path.join(TMP, "d"), [8, 3, 5])
total = 0
for rank in range(2):
    ds = StreamingDataset(src, drop_last=True)
    ds.distributed_env = _DistributedEnv(2, rank, 2)
    total += ds.get_len(3, 1)
expect(total, 16, "number of samples")
"""),
 dict(NAME="p07-live-state", PROPERTY="P07",
  NEEDS="a state taken in the middle of an epoch and used after the loader went on",
  BREAKS="the state changes with the loader, so a restored run skips samples",
  EDITS=[("src/litdata/streaming/dataloader.py", """            "num_samples_yielded": deepcopy(self._num_samples_yielded_combined),
""", """            "num_samples_yielded": self._num_samples_yielded_combined,
""")],
  DEMO="""
from litdata import CombinedStreamingDataset, StreamingDataset, StreamingDataLoader

srcs = [write(os.path.join(TMP, "a"), [5]), write(os.path.join(TMP, "b"), [6], 100), write(os.path.join(TMP, "c"), [5], 200)]
mk = lambda: StreamingDataLoader(CombinedStreamingDataset([StreamingDataset(s) for s in srcs], seed=1), batch_size=1, num_workers=0)
for k in range(1, 15):
    a = mk()
    it = iter(a)
    for _ in range(k):
        next(it)
    state = a.state_dict()
    rest = [int(x) for x in it]
    b = mk()
    b.load_state_dict(state)
    expect([int(x) for x in b], rest, f"remaining samples after {k}")
"""),
 dict(NAME="p04-pending", PROPERTY="P04",
  NEEDS="a dataset object iterated again after an iteration that was abandoned inside a chunk",
  BREAKS="the new epoch starts with the leftover positions of the abandoned one",
  EDITS=[("src/litdata/streaming/dataset.py", """            self.upcoming_indexes = []
            self.worker_next_chunk_index = 0
""", """            self.worker_next_chunk_index = 0
""")],
  DEMO="""
from litdata import StreamingDataset

src = write(os.path.join(TMP, "d"), [5, 3])
a = StreamingDataset(src)
it = iter(a)
next(it), next(it)
expect([int(x) for x in a], list(range(8)), "second iteration")
"""),
 dict(NAME="p11-first-dim", PROPERTY="P11",
  NEEDS="token samples of different lengths in one chunk",
  BREAKS="the number of tokens recorded for the chunk is wrong, so full windows are missing or read past the end",
  EDITS=[("src/litdata/streaming/writer.py", """            dim = sum([item.dim if item.dim is not None else 0 for item in items])
""", """            dim = items[0].dim * len(items)
""")],
  DEMO="""
import torch
from litdata import StreamingDataset, TokensLoader
from litdata.streaming import Cache

d = os.path.join(TMP, "d")
os.makedirs(d)
c = Cache(d, chunk_size=1000, item_loader=TokensLoader())
for i, n in enumerate([3, 11, 6]):
    c[i] = torch.arange(100 * i, 100 * i + n)
c.done()
c.merge()
ds = StreamingDataset(d, item_loader=TokensLoader(block_size=4))
flat = [*range(3), *range(100, 111), *range(200, 206)]
expect([x.tolist() for x in ds], [flat[i: i + 4] for i in range(0, 20, 4)], "blocks")
"""),
 dict(NAME="p08-empty-leaf", PROPERTY="P08",
  NEEDS="a sample with a leaf of no bytes",
  BREAKS="the empty leaf comes back as None",
  EDITS=[("src/litdata/streaming/item_loader.py", """        sizes = np.frombuffer(raw_item_data[:idx], np.uint32)
        data = []
        for size, data_format in zip(sizes, self._data_format):
            serializer = self._serializers[data_format]
""", """        sizes = np.frombuffer(raw_item_data[:idx], np.uint32)
        data = []
        for size, data_format in zip(sizes, self._data_format):
            if size == 0:
                # nothing was stored for this leaf
                data.append(None)
                continue
            serializer = self._serializers[data_format]
""")],
  DEMO="""
from litdata import StreamingDataset
from litdata.streaming import Cache

d = os.path.join(TMP, "d")
os.makedirs(d)
c = Cache(d, chunk_size=10)
values = [{"a": "x", "b": b"1"}, {"a": "", "b": b"2"}, {"a": "yy", "b": b""}]
for i, v in enumerate(values):
    c[i] = v
c.done()
c.merge()
ds = StreamingDataset(d)
expect([ds[i] for i in range(3)], values, "samples")
"""),
 dict(NAME="p28-carry", PROPERTY="P28",
  NEEDS="a batch larger than a worker's whole part of a chunk",
  BREAKS="the planning fails or never ends, or no worker is left to release a shared chunk",
  EDITS=[("src/litdata/utilities/shuffle.py", """                    num_batches = max(num_batches, 0)
""", "")],
  DEMO="""
from litdata.utilities.shuffle import _find_chunks_per_workers_on_which_to_skip_deletion as f
import signal
signal.alarm(20)
for bs in range(1, 6):
    for a in range(1, 6):
        for b in range(1, 6):
            r = f(2, bs, [[0, 1], [1, 2]], [[(0, 0, a, a), (0, 0, b, 9)], [(0, b, 9, 9), (9, 9, 9 + a, 9 + a)]])
            expect(list(r), [1], f"shared chunks {bs} {a} {b}")
            expect(len(r[1]), 1, f"workers told to keep it {bs} {a} {b}")
"""),
]
