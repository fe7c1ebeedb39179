"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/litdata/"


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                    "state": state or [], "observe_at": observe or [], "hook_needed": None},
    }


PROPS = [
    P("P01", "An epoch delivers every sample exactly once across all ranks and workers",
      "When nothing is dropped, the samples delivered during one epoch by all processes, nodes and loading workers "
      "together are exactly the samples of the dataset, each once. This holds for every epoch, shuffled or not.",
      ["inputs", "configurations"],
      "every distribution of samples over chunks, world size, number of nodes, workers, batch size, epoch and seed",
      "Tests use a few fixed layouts; the uneven ones (chunks shared by workers, several nodes, later epochs) are an "
      "unbounded family and were in fact wrong for several nodes.",
      ["streaming/dataset.py", "streaming/shuffle.py", "utilities/shuffle.py", "streaming/reader.py"],
      [("assignment of chunk intervals to workers", "utilities/shuffle.py:_associate_chunks_and_intervals_to_workers"),
       ("re-shuffle within nodes", "utilities/shuffle.py:_intra_node_chunk_shuffle"),
       ("iteration", "streaming/dataset.py:StreamingDataset.__next__")],
      ["samples yielded by iterating the dataset in every worker"]),
    P("P02", "With drop_last every rank gets the same number of samples, and little is dropped",
      "When the tail is dropped, all processes receive the same number of samples, a whole number of batches, no "
      "sample is delivered twice, and fewer than one batch per process is dropped in total. It holds in every epoch, "
      "and dropping is the default as soon as several processes take part.",
      ["inputs", "configurations"],
      "every distribution of samples over chunks, world size, nodes, workers, batch size, epoch and seed",
      "The arithmetic has remainders at four levels (items, batches, ranks, workers); tests fix one or two of them.",
      ["utilities/shuffle.py", "streaming/dataset.py", "streaming/shuffle.py"],
      [("per-worker budgets", "utilities/shuffle.py:_associate_chunks_and_intervals_to_workers"),
       ("default of drop_last", "streaming/dataset.py:StreamingDataset.__init__")],
      ["samples yielded per rank", "len(dataset)"]),
    P("P03", "The declared length is the number of samples and batches really delivered",
      "The length a dataset or a loader declares equals the number of samples, respectively batches, one epoch then "
      "delivers to that process. Every batch has the requested size except possibly the last one delivered.",
      ["inputs", "configurations"],
      "every chunk layout, batch size, number of workers, drop_last setting, rank",
      "Length and delivery are computed by different code from different arguments; tests compare them on a few sizes.",
      ["streaming/dataset.py", "streaming/dataloader.py", "streaming/shuffle.py", "utilities/shuffle.py"],
      [("declared length", "streaming/dataloader.py:StreamingDataLoader.__len__"),
       ("declared length", "streaming/dataset.py:StreamingDataset.get_len")],
      ["len(loader)", "batches yielded"]),
    P("P04", "The order of an epoch depends only on seed and epoch, not on history",
      "The order in which a worker delivers its samples is a function of the dataset, seed, epoch, batch size and "
      "position in the job, and does not depend on what the object did before (length queries, random accesses, "
      "earlier complete or abandoned epochs, copies). Without shuffling it is the storage order.",
      ["histories", "configurations", "inputs"],
      "every bounded history of operations before the epoch, every chunk layout",
      "Stale per-object state (position, plan caches, pending indexes) only shows after particular histories.",
      ["streaming/dataset.py", "streaming/shuffle.py"],
      [("reset at iteration start", "streaming/dataset.py:StreamingDataset.__iter__"),
       ("cached plans", "streaming/shuffle.py:FullShuffle.get_chunks_and_intervals_per_workers")],
      ["order of samples yielded"]),
    P("P05", "A loader restored mid-epoch delivers exactly the remaining batches",
      "After saving the state of a loader in the middle of an epoch and restoring it into a fresh loader of the same "
      "configuration, the fresh one delivers exactly the batches the first would still have delivered, in the same "
      "order, then continues with the next epoch. This also holds when the restored run is interrupted again, and a state "
      "once taken stays as it was, whatever is done with the loader afterwards.",
      ["histories", "inputs", "configurations"],
      "every interruption point, chunk layout, batch size, number of workers, epoch; chains of two interruptions",
      "The replay arithmetic has a case per worker and chunk boundary; tests sample a few interruption points.",
      ["streaming/dataset.py", "streaming/dataloader.py"],
      [("replay", "streaming/dataset.py:StreamingDataset._resume"),
       ("replay arithmetic", "streaming/dataset.py:_replay_sampling"),
       ("restart on the right worker", "streaming/dataloader.py:_StreamingMultiProcessingDataLoaderIter")],
      ["batches yielded after load_state_dict"]),
    P("P06", "A combined dataset delivers every member sample once, or follows its weights",
      "When iterating over all members, one epoch of a combined dataset delivers each member's samples exactly once "
      "and in that member's own order. With fixed weights it stops only when a chosen member is exhausted, never "
      "delivers a sample twice, and draws the same sequence for the same seed.",
      ["inputs", "configurations", "histories"],
      "every member length, weights, seed, number of workers, batch size, batching mode and successive epochs",
      "The exhaustion order of members depends on the random draws; tests pin seeds and lengths.",
      ["streaming/combined.py"],
      [("selection", "streaming/combined.py:_CombinedDatasetIterator.__next__")],
      ["samples yielded"]),
    P("P07", "A combined dataset restored mid-epoch delivers exactly the remaining samples",
      "After saving the state of a loader over a combined dataset in the middle of an epoch and restoring it into a "
      "fresh loader, the fresh one delivers exactly the batches the first would still have delivered, in the same "
      "order, then goes on with the next epoch.",
      ["histories", "inputs", "configurations"],
      "every interruption point, member lengths, number of workers, batch size, with and without weights",
      "The restored draw sequence must follow the original through member exhaustion; tests stop early in the epoch.",
      ["streaming/combined.py", "streaming/dataloader.py"],
      [("replay", "streaming/combined.py:_CombinedDatasetIterator"),
       ("state", "streaming/dataloader.py:StreamingDataLoader.state_dict")],
      ["batches yielded after load_state_dict"]),
    P("P08", "Reading a written chunk returns every sample's exact bytes",
      "For every number of samples and every sample length, the bytes read back for each sample position of a written "
      "chunk are exactly the bytes that were written at this position, compressed or not. Nothing depends on the "
      "lengths of the other samples or on the order of the reads.",
      ["inputs", "histories"],
      "every number of samples up to the bound, all leaf lengths (symbolic, up to the format's 4 GiB), read orders",
      "Tests write small samples of a few lengths; offsets near type limits, empty leaves and read orders are unlimited.",
      ["streaming/writer.py", "streaming/item_loader.py", "streaming/reader.py", "streaming/config.py"],
      [("chunk layout", "streaming/writer.py:BinaryWriter._create_chunk"),
       ("item lookup", "streaming/item_loader.py:PyTreeLoader.load_item_from_chunk"),
       ("leaf split", "streaming/item_loader.py:PyTreeLoader.deserialize")],
      ["items returned by indexing the cache"]),
    P("P09", "The writer stores every sample once, in order, in chunks within the limits",
      "Over any sequence of added samples, the chunks the writer produces contain every sample exactly once, in the "
      "order of their indices (samples are added in index order), no chunk exceeds the configured number of samples or bytes except a single oversized sample alone in "
      "its chunk, and the index lists exactly the produced files with their true sample counts and sizes.",
      ["inputs", "histories", "configurations"],
      "every sequence of sample sizes, index order, chunk size and chunk byte limits",
      "The flush decision depends on the running byte and sample counts; tests use equal-sized samples.",
      ["streaming/writer.py"],
      [("flush decision", "streaming/writer.py:BinaryWriter._should_write"),
       ("chunk creation", "streaming/writer.py:BinaryWriter._create_chunk"),
       ("final flush", "streaming/writer.py:BinaryWriter.done")],
      ["chunk files", "index.json"]),
    P("P10", "Random access by index returns the sample at this position",
      "dataset[i] returns the i-th sample of the (possibly subsampled) dataset for every valid i, slices return the "
      "corresponding list, and an index out of range raises instead of returning some sample.",
      ["inputs", "histories"],
      "every chunk layout, every region of interest per chunk, every index and slice",
      "The index-to-chunk mapping has a boundary per chunk and region; tests probe some.",
      ["streaming/config.py", "streaming/dataset.py", "streaming/item_loader.py"],
      [("mapping", "streaming/config.py:ChunksConfig._get_chunk_index_from_index"),
       ("intervals", "streaming/item_loader.py:PyTreeLoader.generate_intervals")],
      ["dataset[i]", "dataset[a:b:c]"]),
    P("P11", "Token blocks tile the token stream of each chunk",
      "With the token loader, the blocks of a chunk are the consecutive, non-overlapping windows of block-size tokens "
      "of that chunk in order, every full window is delivered exactly once and only the incomplete tail of a chunk is "
      "left out. The declared length is the number of full windows.",
      ["inputs", "configurations"],
      "every chunk token count, block size, token dtype, region of interest",
      "Block arithmetic crosses chunk boundaries with remainders; tests use divisible sizes.",
      ["streaming/item_loader.py", "utilities/dataset_utilities.py"],
      [("blocks", "streaming/item_loader.py:TokensLoader.load_item_from_chunk"),
       ("intervals", "streaming/item_loader.py:TokensLoader.generate_intervals"),
       ("regions", "utilities/dataset_utilities.py:generate_roi")],
      ["blocks yielded"]),
    P("P12", "Serialising and deserialising a value returns the value",
      "For every value a serializer accepts, deserialising what it serialised yields an equal value of the same type "
      "(and dtype, shape for arrays; integers and floats as the 64-bit numpy scalars), and the serializer chosen for a "
      "value is one that round-trips it. A leaf of a later sample comes back equal under the format of the first sample "
      "or is refused when it is written.",
      ["inputs"],
      "every integer, float, boolean, byte string, string up to the bound, array dtype, rank and shape up to the bound",
      "Round trips must hold for all values, shapes and dtypes; tests check examples.",
      ["streaming/serializers.py"],
      [("leaf serializers", "streaming/serializers.py:Serializer"),
       ("choice of the serializer", "streaming/writer.py:BinaryWriter._serialize")],
      ["deserialize(serialize(x))"]),
    P("P13", "Sample structure survives flattening, the index file and reading",
      "A nested sample (dicts, lists, tuples and their subclasses the format supports) written to a dataset is read "
      "back with the same structure and with every leaf at its place, and equal structures always flatten alike. The "
      "structure description survives its storage in the index file, or the structure is refused when it is written. "
      "Later samples must have the structure of the first one (kinds of dicts are interchangeable).",
      ["inputs"],
      "every nesting up to the bound with symbolic shape choices; key orders",
      "Structures are unbounded; tests hold a handful.",
      ["utilities/_pytree.py", "streaming/writer.py", "streaming/config.py"],
      [("flatten/unflatten", "utilities/_pytree.py:tree_flatten"),
       ("stored description", "utilities/_pytree.py:treespec_dumps")],
      ["items read back"]),
    P("P14", "Subsampling keeps exactly the requested share and splits are disjoint",
      "Subsampling a dataset by a fraction gives exactly that share of its samples (rounded down), each as often as "
      "the fraction demands; train/test splits are pairwise disjoint, have exactly the requested sizes, and never "
      "exceed the dataset.",
      ["inputs", "configurations"],
      "every chunk layout, fraction or split vector, seed, shuffled or not, split of a subsampled dataset",
      "Cuts fall inside or exactly on chunk boundaries depending on the sizes; tests pick a few fractions.",
      ["utilities/subsample.py", "utilities/dataset_utilities.py", "utilities/train_test_split.py",
       "streaming/config.py"],
      [("cut", "utilities/subsample.py:subsample_filenames_and_roi"),
       ("split", "utilities/train_test_split.py:train_test_split"),
       ("subsampled chunks", "streaming/config.py:load_subsampled_chunks")],
      ["samples delivered by the subsampled datasets"]),
    P("P15", "Work items are partitioned over nodes and workers, unchanged and balanced",
      "Distributing inputs to the workers of all nodes gives every input to exactly one worker, unchanged; without "
      "weights in input order and with worker loads differing by at most one, with weights such that no "
      "worker stays heavier than another even after giving away its lightest input (so none is idle while another has "
      "several inputs). The weights given to map() and optimize() are the ones used.",
      ["inputs", "configurations"],
      "every number of inputs, workers, nodes, and positive integer weights (including ties and mixed item types)",
      "Remainders and ties decide the split; tests use few counts.",
      ["processing/data_processor.py", "utilities/packing.py"],
      [("sequential", "processing/data_processor.py:_map_items_to_workers_sequentially"),
       ("weighted", "processing/data_processor.py:_map_items_to_workers_weighted"),
       ("packing", "utilities/packing.py:_pack_greedily")],
      ["inputs received by each worker"]),
    P("P16", "An optimize run resumed from its checkpoints stores every input exactly once",
      "When an optimize run with checkpoints is interrupted at any point and started again with the same inputs, the "
      "finished dataset contains the output of every input exactly once, and every chunk the index names exists. "
      "Chunks a checkpoint refers to are kept. (One node; with mode='overwrite' the run starts over; a run whose "
      "dataset was already finished may be refused.)",
      ["crash_points", "inputs", "histories"],
      "every interruption point between steps of the workers, every input/chunk ratio, inputs producing 0..n samples",
      "Only a systematic placement of the crash relative to checkpoint and chunk writes exercises the recovery.",
      ["streaming/writer.py", "processing/data_processor.py", "processing/functions.py"],
      [("checkpoint", "streaming/writer.py:BinaryWriter.save_checkpoint"),
       ("recovery", "processing/data_processor.py:DataChunkRecipe")],
      ["the finished dataset"]),
    P("P17", "Appending to a dataset keeps the existing samples first and intact",
      "Appending to an existing dataset never overwrites or removes an existing chunk, and afterwards the dataset is "
      "the old samples followed by the new ones, worker by worker in order. Overwriting instead leaves only the new "
      "samples.",
      ["inputs", "configurations", "histories"],
      "every number of existing chunks per worker, number of workers before and now, of new samples; repeated appends",
      "Chunk names depend on worker counts of several runs; tests append with few workers once or twice.",
      ["processing/functions.py", "processing/data_processor.py", "streaming/writer.py", "processing/utilities.py"],
      [("next chunk index", "processing/functions.py:optimize"),
       ("index merge", "streaming/writer.py:BinaryWriter._merge_no_wait")],
      ["index.json and chunk files after the run"]),
    P("P18", "Merging datasets concatenates them and refuses incompatible ones",
      "A merged dataset holds exactly the samples of its inputs, in the order the inputs were given, under distinct "
      "file names, and leaves the inputs untouched. Datasets whose encodings (structure, formats, compression, item "
      "loader, encryption algorithm and level) differ are refused rather than merged.",
      ["inputs", "configurations"],
      "every number of input datasets and chunks in each, name collisions, differing configurations",
      "Tests merge two or three datasets and vary one configuration field.",
      ["processing/functions.py"],
      [("merge", "processing/functions.py:merge_datasets")],
      ["merged index.json and files"]),
    P("P19", "An existing dataset is never overwritten unless asked to",
      "Processing into a destination that already holds data is refused before anything in it is changed, unless the "
      "caller asked to append or overwrite (or to resume with checkpoints): optimize refuses a destination that holds a "
      "dataset, and a remote one that holds anything; map refuses a non-empty remote destination. Files of a local "
      "destination that are no chunks, index or checkpoints are never removed.",
      ["inputs", "configurations"],
      "every destination state (absent, empty, with an index, with other files), mode and checkpoint setting",
      "The combinations of destination content, mode and storage kind are only partly tested.",
      ["streaming/resolver.py", "processing/functions.py"],
      [("guard", "streaming/resolver.py:_assert_dir_has_index_file"),
       ("guard", "streaming/resolver.py:_assert_dir_is_empty")],
      ["exception raised, destination content"]),
    P("P20", "Deleting a remote directory never touches anything outside it",
      "Deleting a directory, or clearing a destination before overwriting it, removes objects only below that "
      "directory, never a sibling whose name merely starts the same, and removes everything below it.",
      ["inputs"],
      "every set of object keys (symbolic strings) and every directory name within the length bound, paged listings",
      "Key sets with common prefixes and more than one listing page are not in the tests, which mock the client.",
      ["streaming/fs_provider.py", "streaming/resolver.py"],
      [("delete", "streaming/fs_provider.py:S3FsProvider.delete_file_or_directory"),
       ("delete", "streaming/fs_provider.py:GCPFsProvider.delete_file_or_directory"),
       ("emptiness", "streaming/fs_provider.py:FsProvider.is_empty")],
      ["keys deleted"]),
    P("P21", "Processing never deletes the user's input files",
      "During map and optimize, files are deleted only inside the run's own cache directories: the user's inputs "
      "outside of these are left alone wherever they are stored and however the inputs are given.",
      ["inputs", "configurations", "fault_sequences"],
      "every placement of input paths relative to the input and cache directories, nesting of inputs, worker outcome",
      "Path relations (inside, outside, prefix-sharing, resolved, nested) are a large space; tests use one layout.",
      ["processing/data_processor.py"],
      [("removal", "processing/data_processor.py:_remove_target"),
       ("path collection", "processing/data_processor.py:BaseWorker._collect_paths")],
      ["files removed"]),
    P("P22", "The chunk cache never removes a chunk still needed, and frees space otherwise",
      "A chunk file is removed from the cache only when no local worker holds it; every planned chunk eventually "
      "becomes readable, and once a chunk was read for the last time the cache does not keep growing beyond its limit "
      "because of it.",
      ["schedules", "histories", "configurations"],
      "every interleaving of two workers' prepare/read/release steps within the bound, cache limits, chunk sizes",
      "Only some schedules drop the last reference while another worker starts to use the chunk.",
      ["streaming/reader.py", "streaming/downloader.py", "streaming/config.py"],
      [("reference counts", "streaming/downloader.py:Downloader._increment_local_lock"),
       ("eviction", "streaming/reader.py:PrepareChunksThread._maybe_delete_chunks"),
       ("release", "streaming/reader.py:PrepareChunksThread._decrement_local_lock")],
      ["files present when a worker reads them"]),
    P("P23", "A partially downloaded or partially decompressed chunk is never read",
      "Whatever point a download or decompression is interrupted at, a later reader either waits, downloads again or "
      "fails, but never decodes an incomplete file as if it were complete.",
      ["crash_points", "schedules", "fault_sequences"],
      "every crash point of the local download and of the decompression, every file length",
      "Crash points inside a copy are not reachable by unit tests.",
      ["streaming/downloader.py", "streaming/config.py", "streaming/item_loader.py"],
      [("local download", "streaming/downloader.py:LocalDownloader.download_file"),
       ("decompression", "streaming/config.py:ChunksConfig.try_decompress"),
       ("size check", "streaming/item_loader.py:PyTreeLoader.load_item_from_chunk")],
      ["bytes a reader would decode"]),
    P("P24", "A produced file is removed locally only after its upload succeeded, and a failed upload fails the run",
      "During map and optimize, a produced file is deleted locally only once its content is complete at the "
      "destination, whatever uploads fail; a failed upload of a product makes the run fail instead of producing an "
      "index that names a missing chunk.",
      ["fault_sequences", "schedules"],
      "every subset of failing uploads, every content length, checkpoint and chunk uploads mixed",
      "Upload failures are not simulated by the tests.",
      ["processing/data_processor.py"],
      [("upload", "processing/data_processor.py:_upload_fn")],
      ["removals requested, destination content"]),
    P("P25", "Parquet datasets return the right row for every row-group layout",
      "Reading a dataset of Parquet files by position returns the row stored at this position, for every layout of "
      "rows over files and row groups, with and without low-memory reading, and independently of earlier reads.",
      ["inputs", "histories"],
      "every number and size of files and row groups within the bound, every sequence of reads",
      "Files with equal row groups hide mapping mistakes; tests only write those.",
      ["streaming/item_loader.py", "utilities/parquet.py"],
      [("row lookup", "streaming/item_loader.py:ParquetLoader._get_item_with_low_memory"),
       ("intervals", "streaming/item_loader.py:ParquetLoader.generate_intervals")],
      ["rows returned"]),
    P("P26", "The caching sampler gives every index to exactly one worker, batched as declared",
      "While a cache is being filled, each index of the dataset is given to exactly one process and worker, and every "
      "worker is given successive indices in ascending order. Once it is filled, every index is given exactly once per "
      "epoch (over processes that share numpy's seed), with the chunk it is in, and a worker reads chunk after chunk in "
      "the announced order. No batch is larger than declared.",
      ["inputs", "configurations"],
      "every dataset length, world size, rank, workers, batch size, chunk layout, shuffle",
      "Tests fix the lengths; the interleaving of uneven replicas and workers depends on remainders.",
      ["streaming/sampler.py"],
      [("filling", "streaming/sampler.py:CacheBatchSampler.__iter_from_dataset__"),
       ("filled", "streaming/sampler.py:CacheBatchSampler.__iter_indices_from_chunks__")],
      ["batches of indices"]),
    P("P27", "Encrypted data is only returned decrypted with the right key and level",
      "Samples of an encrypted dataset are returned exactly as written when the matching key and level are given, and "
      "reading without encryption, with another algorithm or another level is refused instead of returning bytes.",
      ["inputs", "configurations", "histories"],
      "both levels, every number of samples and lengths, matching and mismatching readers, read orders",
      "The combinations of writer and reader configuration are only sampled by tests.",
      ["streaming/writer.py", "streaming/item_loader.py", "utilities/encryption.py", "streaming/reader.py"],
      [("write", "streaming/writer.py:BinaryWriter._create_chunk"),
       ("read", "streaming/item_loader.py:PyTreeLoader._load_encrypted_data"),
       ("refusal", "streaming/item_loader.py:PyTreeLoader._validate_encryption")],
      ["samples read or exception"]),
    P("P28", "Planning which worker keeps shared chunks always ends and leaves one remover",
      "For every assignment of chunks to workers, planning the release of shared chunks terminates without error, and "
      "for each chunk shared by several workers exactly one of them is left to release it.",
      ["inputs", "configurations"],
      "every chunk layout, number of ranks and workers, batch size",
      "The planner simulates consumption with remainders and loops until done; tests run few layouts.",
      ["utilities/shuffle.py"],
      [("planner", "utilities/shuffle.py:_find_chunks_per_workers_on_which_to_skip_deletion")],
      ["the plan", "termination of iter(dataset)"]),
    P("P29", "Every process and worker has its own global rank, and chunk files never collide",
      "Over all nodes, processes and workers of a job, chunk and index files written have distinct names, and each "
      "worker sees the rank that its position in the job implies.",
      ["configurations"],
      "every number of nodes, processes per node, workers, and chunk counters",
      "Tests detect the environment for a few settings.",
      ["utilities/env.py", "streaming/writer.py", "streaming/cache.py", "processing/data_processor.py"],
      [("rank", "utilities/env.py:_DistributedEnv.detect"),
       ("file names", "streaming/writer.py:BinaryWriter.get_chunk_filename")],
      ["file names", "ranks"]),
    P("P30", "Byte sizes given as text mean what they say",
      "A size written as a number and a unit (kb, mb, gb, tb in any case) denotes the number times the unit: exactly for "
      "whole numbers below 2**53 bytes, to one byte otherwise. Larger numbers never denote smaller sizes, and a malformed "
      "size is refused. Where a limit is given as text it has the effect of that number of bytes.",
      ["inputs"],
      "every number up to the bound with every unit and letter case, malformed texts",
      "Texts are unbounded; tests list a few.",
      ["utilities/format.py"],
      [("parsing", "utilities/format.py:_convert_bytes_to_int")],
      ["returned size"]),
    P("P31", "Compression and decryption primitives are faithful",
      "The external compression and encryption libraries return the original bytes.",
      ["inputs"], "all byte strings",
      "All inputs.", ["streaming/compression.py", "utilities/encryption.py"],
      [("zstd", "streaming/compression.py:ZSTDCompressor")], []),
    P("P32", "Image leaves keep their pixels",
      "Image samples stored in a dataset are returned with the same pixels (lossless formats) or as the same encoded "
      "file.",
      ["inputs"], "all images", "All inputs.", ["streaming/serializers.py"],
      [("PIL", "streaming/serializers.py:PILSerializer")], []),
    P("P33", "Nodes agree on broadcast values",
      "All nodes of a job obtain the same broadcast output directory.",
      ["schedules", "fault_sequences"], "all network schedules", "Network schedules.", ["utilities/broadcast.py"],
      [("broadcast", "utilities/broadcast.py:broadcast_object")], []),
]

NA = {
    "P31": "zstd and cryptography are compiled foreign code reached through FFI; a symbolic execution of litdata stops at "
           "that boundary. They are modelled as ideal (invertible) functions in P08 and P27 instead.",
    "P32": "the property lives in PIL's/torchvision's C codecs, which cannot be encoded; the part litdata adds (choice of "
           "serializer, passing bytes through) is covered by P12.",
    "P33": "the agreement is implemented by an external HTTP service (Lightning platform) and by torch collectives; there "
           "is no litdata code that decides it to execute symbolically.",
}

TECH = ("bounded symbolic execution of the real Python code with z3 (forking on every branch over symbolic inputs; solver "
        "verdict per obligation; counterexamples replayed on the unmodified code)")

NOTES = {}


def main():
    import glob

    claimed = []
    for p in PROPS:
        f = os.path.join(V, "checks", p["id"].lower() + ".py")
        if p["id"] not in NA and os.path.exists(f):
            claimed.append(p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in PROPS if p["id"] not in claimed]
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"./check {i} --tier quick",
                "thorough_cmd": f"./check {i} --tier thorough",
                "technique": TECH,
                "level": "model_checking",
                "level_note": note(i),
                "evidence_file": f"evidence/{i}.json",
            }
            for i in claimed
        ],
        "not_applicable": na,
        "notes": "No hooks in /repo. All commits in /repo are fix: commits, listed in known_findings.txt.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("claimed", claimed)


def note(i):
    return NOTES.get(i) or ("Holds for every value within the bounds listed in the evidence file (symbolic inputs, every "
                            "feasible path; tasks that hit their path budget are counted there). Trusts the stubs listed in "
                            "the evidence, z3, and the proxies' semantics (cross-checked by replaying path witnesses on the "
                            "real code).")


if __name__ == "__main__":
    main()
