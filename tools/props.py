"""Property table: single source for properties.jsonl and MANIFEST.json (see gen.py)."""

S = "src/megatron/energon/"
W = S + "wrappers/"
F = S + "flavors/webdataset/"

RESUME_WHY = ("The resume tests build one pipeline with fixed sizes, save at one or two hand-picked positions and "
              "compare; the property quantifies over every save position, data content, user-function outcome and "
              "worker layout, and most of those tests are not even runnable in the stable suite.")

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, observe=observe, note=note))


P("C01", "Shards are partitioned over all workers without loss, duplication or imbalance",
  "For every list of shards with any sample counts, every world size, number of workers per rank, rotation offset and "
  "maximum sequence length, the pieces assigned to the workers of all ranks together cover every sample of every shard "
  "exactly once, in order, no piece is empty, and all columns of a joined shard are cut at the same positions. "
  "The number of samples of any two workers differs by at most one, also in total over several datasets that are split one "
  "after the other with the remainder rotated on. If a maximum sequence length is set, no piece is longer than 1.5 times it.",
  ["inputs", "configurations"],
  "all shard counts (symbolic), all world sizes / workers / rotations / maximum sequence lengths within the bounds",
  "The tests use one data set with one shard layout and world sizes 1 and 2; off-by-one errors of the cuts only show for "
  "particular remainders of counts, workers and maximum length.",
  [F + "sharder.py"],
  [("Sharder.shard_workers", F + "sharder.py"), ("Sharder.split_shard / split_samples_to_workers", F + "sharder.py")],
  ["the (shard, offset, count) pieces returned for every worker of every rank"],
  "shard counts are unbounded solver integers (< 2**24); number of shards, ranks and workers are enumerated bounds.")

P("C02", "Every worker has its own identity, indices and restorable randomness",
  "For any number of ranks, workers and any worker offset: every worker has a local id within its rank's workers and a "
  "global id no other worker of any rank has; two samples or batches of one rank never get the same sample or batch index, "
  "and one worker's indices increase. The main process, acting for any worker when it restores a sample, sees that worker's "
  "ids and indices. Every worker's random generator has its own seed, which depends only on the configuration, not on the "
  "process it runs in; saved after any draw and restored in a fresh or used process, alone or merged with the states of the "
  "others, it continues with the same draws. A function marked stateless(restore_seeds=True) draws the same random numbers when its sample is "
  "restored - in any process, after any other sample was restored or processed there - draws others for other samples, and "
  "leaves the caller's random generators as they were, also between the outputs of a generator and when it fails.",
  ["inputs", "configurations", "histories"],
  "all ranks, worker ids, offsets and indices (unbounded solver integers); all histories of calls within the bounds",
  "The tests use one or two workers and one process, where a wrong or cached seed or a colliding index does not show.",
  ["src/megatron/energon/worker.py", "src/megatron/energon/rng.py", "src/megatron/energon/task_encoder/base.py"],
  [("WorkerConfig", "src/megatron/energon/worker.py"), ("SystemRng / WorkerRng", "src/megatron/energon/rng.py"),
   ("stateless", "src/megatron/energon/task_encoder/base.py")],
  ["worker ids, sample and batch indices, seeds of generators, random draws of functions"],
  "the three global random generators are counters of draws since seeding; the 32 bit hashes are compared for enumerated pairs.")

P("C03", "A sample loader epoch yields each assigned sample exactly once, complete",
  "In a validation epoch every worker yields exactly the samples assigned to it, in shard order, and then ends, in every "
  "epoch alike; the workers of all ranks together yield every sample of the data set exactly once. In a training epoch "
  "(shuffle_over_epochs n) every assigned sample is yielded exactly n times, each piece is read front to back with at most "
  "parallel_shard_iters pieces open at once, every piece can come first, and with n=-1 only assigned pieces are drawn, each "
  "read completely. Samples and shards excluded by the split (listed or as a pattern) are never yielded and nothing else is "
  "lost by it. Each sample has exactly its own members of the tar shard with their exact bytes, whatever the member "
  "sizes, number of parts, interspersed members that belong to no sample, and wherever the shard was cut; its restore key "
  "names its position.",
  ["inputs", "configurations"],
  "all member sizes (symbolic), layouts of ignored members, cuts, random draws, ranks and workers within the bounds",
  "The tests read a fixed data set with a fixed seed and equal part counts; a wrong byte offset or a lost or repeated "
  "sample shows only for particular cuts, layouts and draws.",
  [F + "sample_loader.py", F + "single_shard_reader.py", F + "itar.py", F + "sharder.py", F + "base_webdataset.py"],
  [("WebdatasetSampleLoaderDataset", F + "sample_loader.py"), ("SingleShardReader", F + "single_shard_reader.py"),
   ("ITarFile / SubFileReader", F + "itar.py"), ("BaseWebdatasetFactory.build", F + "base_webdataset.py")],
  ["sequence of raw samples of every worker of every rank, with their bytes and restore keys"],
  "file system and tarfile are models (vt/vfs.py); 1-3 shards of 1-4 samples; byte sizes are unbounded solver integers.")

P("C04", "The sample loader resumes exactly from every position, and restores by key",
  "Saving the sample loader of a webdataset after any number of raw samples, in training (any shuffling over epochs, any "
  "number of parallel pieces, with replacement or not) or validation, at any worker and rank, and restoring into a fresh "
  "loader continues with exactly the samples the uninterrupted run yields, byte for byte, also when saved and restored "
  "again; saving does not disturb the running loader, workers without a state start from their beginning, and a loader "
  "already in use can be reset to the state. Every sample is rebuilt, with the same content, from its restore key, and the "
  "restore keys differ for different samples, also when samples of the shard are excluded by their key.",
  ["inputs", "histories", "crash_points", "configurations"],
  "all save points, draws, member sizes and sets of excluded samples within the bounds",
  RESUME_WHY,
  [F + "sample_loader.py", F + "single_shard_reader.py", F + "itar.py", S + "rng.py"],
  [("WebdatasetSampleLoaderDataset.save_state / restore_state / restore_sample", F + "sample_loader.py"),
   ("SingleShardReader", F + "single_shard_reader.py"), ("WorkerRng", S + "rng.py")],
  ["sequence of raw samples after restoring, sample restored by key"],
  "file system and tarfile are models (vt/vfs.py); 2-3 shards of 1-4 samples; byte sizes are unbounded solver integers.")

P("C05", "The shuffle buffer loses nothing, repeats nothing and resumes exactly",
  "Over one epoch of its input, a shuffle buffer of any size yields exactly the samples of its input, each once, whatever "
  "the random draws. Saving after any number of samples and restoring into a fresh dataset continues with exactly the "
  "sequence the uninterrupted run would have yielded, provided the input had not ended when the state was saved; restoring the "
  "initial state (None) restarts from the beginning. Every "
  "sample of the buffer's output can be restored by its restore key.",
  ["inputs", "histories", "crash_points"],
  "all random draws, all input lengths, buffer sizes and save points within the bounds, states saved twice",
  RESUME_WHY, [W + "shuffle_buffer_dataset.py", W + "buffer.py", S + "rng.py"],
  [("ShuffleBufferDataset.__iter__", W + "shuffle_buffer_dataset.py"), ("SavableSampleBuffer", W + "buffer.py"),
   ("WorkerRng.save_state / restore_state", S + "rng.py")],
  ["sequence of samples, saved state, sample restored by key"],
  "sizes, epochs and save points bounded (per instance in the evidence); every draw and payload symbolic. Save while "
  "draining a finite input is a recorded finding.")

P("C06", "Per-sample transforms apply once, in order, and resume exactly",
  "Mapping, filtering, generator-mapping and stream-mapping a dataset apply the user function exactly once to every input "
  "sample, in input order, with the same sample index whenever the same sample is processed again; a failing or skipping "
  "call drops only that sample (or what its generator has not yielded yet). Saving between any two samples and restoring "
  "into a fresh dataset continues exactly as the uninterrupted run, and restoring a sample by its restore key runs the "
  "function on the same input with the same sample index and yields that sample.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "all outcomes of the user function per sample (result, skip, error, number of generator outputs), all save points",
  RESUME_WHY, [W + "map_dataset.py", W + "iter_map_dataset.py", W + "filter_dataset.py", W + "base.py"],
  [("MapDataset", W + "map_dataset.py"), ("IterMapDataset", W + "iter_map_dataset.py"),
   ("FilterDataset", W + "filter_dataset.py"), ("SampleIndex", W + "base.py")],
  ["sequence of samples with the sample index the user function saw, restored samples"],
  "symbolic user-function outcomes and payloads; inputs of up to 3-4 samples per epoch. Stream maps keep at most one "
  "output per input for exact resume (documented limit).")

P("C07", "Batching keeps every sample, in order, and resumes exactly",
  "A batcher receives consecutive, non-overlapping groups of exactly batch_size input samples, in order; the remainder at "
  "the end of an epoch is passed on as a smaller batch unless drop_last is set. A failing or skipping batcher call drops "
  "only its own batch, and the reported length is the number of batches when sizes divide evenly over workers. Saving "
  "between any two batches and restoring continues exactly (unless the input had already ended), and a batch's restore "
  "key rebuilds that batch.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "all batcher outcomes, batch sizes, input lengths, save points and worker layouts within the bounds",
  RESUME_WHY, [W + "batch_dataset.py", W + "base.py"],
  [("BatchDataset", W + "batch_dataset.py"), ("SampleIndex", W + "base.py")],
  ["sequence of batches, restored batches, len()"],
  "see evidence for sizes; save inside the generator outputs of the final partial batch is a recorded finding.")

P("C08", "Grouped batches hold one group each, lose nothing and resume exactly",
  "With grouped batching every batch consists of samples of one group key, in input order, of exactly the size requested "
  "by the first sample of that batch's group; over an epoch every sample goes to exactly one batch (the partial ones at the "
  "end are yielded unless drop_last is set). Failing or skipping batcher calls drop only their batch. Saving between any two "
  "batches while the input has not ended and restoring continues exactly, keeping the samples still waiting in every group; "
  "a batch's restore key rebuilds that batch.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "all group keys, group sizes, batcher outcomes and save points within the bounds",
  RESUME_WHY, [W + "group_batch_dataset.py", W + "buffer.py", W + "base.py"],
  [("GroupBatchDataset", W + "group_batch_dataset.py"), ("SavableSampleBuffer", W + "buffer.py")],
  ["sequence of batches, restored batches"],
  "up to 4-5 samples and 2-3 groups per epoch, all groupings symbolic; save while draining is a recorded finding.")

P("C09", "Packing keeps every sample and resumes exactly",
  "Packing hands every buffered sample to the packer, and exactly the packs chosen by the pre-packer reach the final "
  "packer, in the chosen order; samples are neither lost nor used in two packs, whatever packing the user functions choose. "
  "A failing or skipping pre-packer or final packer drops only the samples it was given. Saving between any two packs while "
  "the input has not ended and restoring continues exactly; a pack's restore key rebuilds that pack.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "all partitions chosen by the pre-packer, all user-function outcomes, buffer sizes and save points within the bounds",
  RESUME_WHY, [W + "packing_dataset.py", W + "buffer.py", W + "base.py"],
  [("PackingDataset", W + "packing_dataset.py"), ("SavableSampleBuffer", W + "buffer.py")],
  ["sequence of packs, restored packs"],
  "buffers of 2-3 samples, all partitions symbolic; saves while draining and between several outputs of one pack are "
  "recorded findings.")

P("C10", "Blending and concatenation draw from every dataset in order and resume exactly",
  "A blended dataset yields samples only of datasets that have samples for the worker and a positive weight, each dataset's "
  "samples in that dataset's own order without gaps, restarting a dataset when it ends. A concatenated dataset yields every "
  "dataset's epoch completely, in the listed order. Saving after any sample and restoring continues exactly, and restore "
  "keys lead back to the right dataset and sample, also when some datasets have no samples for a worker. MixBatchDataset makes full batches "
  "of consecutive blended samples, and resumes exactly as well.",
  ["inputs", "histories", "crash_points", "configurations"],
  "all random draws, dataset sizes (including empty), worker layouts and save points within the bounds",
  RESUME_WHY, [W + "blend_dataset.py", W + "concat_dataset.py", W + "mix_batch_dataset.py", S + "rng.py"],
  [("BlendDataset", W + "blend_dataset.py"), ("ConcatDataset", W + "concat_dataset.py")],
  ["sequence of samples with restore keys, restored samples"],
  "2-3 (thorough 4) datasets of 0..2 samples, horizon 4-6 samples.")

P("C11", "Repeating, limiting and fixing epochs yield the exact counts and resume exactly",
  "Repeating a dataset n times yields n of its epochs as one epoch (endlessly without n); a limit of n yields the first "
  "samples of every epoch and restarts its input if asked to; a virtual epoch of n yields exactly n samples and continues "
  "its input in the next epoch. Limits and virtual epochs are split over the workers so that their shares add up to n. "
  "Saving after any sample and restoring continues exactly, in the same epoch position.",
  ["inputs", "histories", "crash_points", "configurations"],
  "all lengths, repeat factors, limits and save points within the bounds",
  RESUME_WHY, [W + "repeat_dataset.py", W + "limit_dataset.py", W + "epochize_dataset.py"],
  [("RepeatDataset", W + "repeat_dataset.py"), ("LimitDataset", W + "limit_dataset.py"),
   ("EpochizeDataset", W + "epochize_dataset.py")],
  ["sequence of samples and epoch ends"],
  "see evidence; a limit is checked in the documented mode that restarts its input every epoch.")

P("C12", "Every sample of a whole task encoder pipeline is rebuilt from its restore key",
  "For every pipeline the task encoder builds from stateless user functions (blend or concatenation, shuffle buffer, cooker, "
  "encode_sample as function or generator, packing, batching or grouping, encode_batch, virtual epochs, limit), the dataset "
  "reports that samples can be restored, and restoring any yielded sample or batch by its restore key in the main process "
  "yields the same content, with every user function called on the same inputs and the same current_sample_index; different "
  "outputs have different restore keys.",
  ["inputs", "histories", "configurations"],
  "all draws, user-function outcomes and positions within the bounds, any worker and rank",
  RESUME_WHY, [S + "task_encoder/base.py"] + [W + f for f in ("map_dataset.py", "batch_dataset.py", "packing_dataset.py", "group_batch_dataset.py", "blend_dataset.py", "concat_dataset.py")] + [F + "sample_loader.py"],
  [("TaskEncoder.build_train_datasets / build_val_datasets / build_batch", S + "task_encoder/base.py"),
   ("restore_sample", W + "base.py")],
  ["restored sample vs. yielded sample, can_restore_sample()"],
  "real pipelines over in-memory tar shards of 1-5 samples; current_batch_index is not restored by contract.")

P("C13", "Data loader checkpoints are exact whatever the worker processes have prefetched",
  "With any number of worker processes, a data loader saved after any number of samples, whatever the workers have "
  "prefetched and whenever their internal checkpoints were taken, and restored into a fresh loader continues with exactly "
  "the remaining samples in the same order, with the same restore keys, sample indices and (with worker processes) the same "
  "random numbers for user code. Saving does not disturb the running loader; states saved before the first sample or "
  "right after a restore work too, on every rank. In a torch.distributed run the states of all ranks (of the data parallel "
  "group) are gathered on every rank or on any one rank, and restoring them, held by every rank or only by one, continues "
  "every rank from its own state. A sample is rebuilt from its restore key in the main process.",
  ["schedules", "histories", "crash_points"],
  "all save points, all amounts of prefetch per worker, all times of the workers' internal checkpoints, within the bounds",
  "Real worker processes show one timing per run; which internal checkpoint a worker has and how far it is ahead when the "
  "save arrives cannot be controlled by a test.",
  [S + "savable_loader.py", S + "worker.py", S + "rng.py", S + "loader.py"],
  [("SavableDatasetWrapper / SavableDataLoader", S + "savable_loader.py"), ("SystemRng", S + "rng.py"),
   ("WorkerConfig.worker_id_offset", S + "worker.py")],
  ["sequence of samples of the loader, saved state, restored samples"],
  "1-3 workers, up to 8 samples; torch's multi-process iterator, the processes and torch.distributed are modelled (vt/mploader.py). "
  "Endless datasets and datasets of (virtual) epochs of 1-5 samples, saved before, between and inside of the epochs; two "
  "known findings: saves in the last round of an epoch, and the order of the epochs after the one saved in.")

P("C14", "Whole training and validation pipelines resume exactly where they were saved",
  "For every pipeline the task encoder builds over webdatasets (blend or concatenation, shuffle buffer, cooker, encode_sample "
  "as function or generator, packing, batching or grouping, encode_batch, virtual epochs, limit, logging), saving a worker's "
  "state after any number of outputs, merging it with the states (or missing states) of the other workers, and restoring into "
  "a freshly built pipeline continues with exactly the outputs of the uninterrupted run: content, epoch ends, restore keys "
  "and the sample and batch indices the user functions see; also when repeated, when restoring into a used pipeline, and when the "
  "same state object is restored several times. "
  "Restoring the initial state (None) into a used pipeline restarts it from its beginning. The outputs are the data sets' "
  "samples in their order, batched, limited and cut into epochs as configured: every validation epoch starts anew, and virtual "
  "training epochs lose nothing between them.",
  ["inputs", "histories", "crash_points", "configurations"],
  "all save points, draws and user-function outcomes within the bounds, any worker and rank",
  RESUME_WHY, [S + "task_encoder/base.py", W + "base.py", F + "sample_loader.py", S + "worker.py"],
  [("TaskEncoder.build_train_datasets / build_val_datasets / build_batch", S + "task_encoder/base.py"),
   ("SavableDataset.save_state / merge_states / restore_state", S + "flavors/base_dataset.py")],
  ["sequence of outputs after restoring"],
  "real pipelines over in-memory tar shards of 1-8 samples, 2-7 outputs per run; saves inside a draining finite input are "
  "covered by the findings of C05, C07, C08 and C09.")

P("C15", "Reading through faults and short reads returns exactly the file's bytes",
  "The stream through which shards are read behaves like the file: for any file size and any sequence of reads and seeks, a "
  "read returns exactly the requested bytes (or all up to the end of the file) at the current position and moves it by as "
  "many, and a seek goes to the requested position within the file, whatever opens, seeks or reads of the storage fail with "
  "an I/O error on the way and however few bytes a read of the storage returns. A read is only given up, with that I/O error, "
  "after ten failures; the stream then stays where it was and goes on from there. A file that got shorter gives an error, "
  "not other bytes.",
  ["inputs", "fault_sequences"],
  "all file sizes, read sizes, seek targets (solver integers); every placement of the faults and short reads",
  "The tests read local files, which neither fail nor return short reads.",
  ["src/megatron/energon/retry_stream.py"],
  [("RetryReadStream", "src/megatron/energon/retry_stream.py")],
  ["bytes returned by read, results of seek and tell, exceptions"],
  "the storage is a model with chosen faults; up to 12 faults in a row, 3 spread over up to 4 operations.")

P("C16", "A shard's index and windows give exactly the indexed part of the shard",
  "A tar index holds the offsets that were written, in order, and nothing else can be read from it; a writer that fails or "
  "crashes at any point leaves the previous index, or none, and no partial one. A window of a file behaves like a file of its "
  "own: no sequence of reads and seeks sees a byte outside of it. Opening the part of a shard that belongs to any range of "
  "samples yields exactly the members of those samples with their bytes, whatever the member sizes, also when the storage "
  "fails in between.",
  ["inputs", "crash_points", "fault_sequences"],
  "all window positions, sizes, offsets and member sizes (solver integers); every crash point; every placement of the faults",
  "The tests open whole small shards and never interrupt the writer.",
  [F + "itar.py", "src/megatron/energon/retry_stream.py"],
  [("TarIndexReader / TarIndexWriter", F + "itar.py"), ("SubFileReader", F + "itar.py"), ("open_itar", F + "itar.py")],
  ["index entries, bytes of windows, members of opened shards, files left after a crash"],
  "file system and tarfile are models (vt/vfs.py); 1-5 index entries, 1-4 samples, 1-4 operations.")

P("C17", "Preparing a data set gives a complete index, counts and splits",
  "For any shard - any order of samples, parts, directories and members that belong to no sample, with headers and data of any "
  "size - preparation writes an index with the offset of every sample and of the end, and lists the shard with its number of "
  "samples; loading the prepared data set yields exactly its samples. A shard that is missing, cut off, or fails to be read or "
  "indexed is left out, or listed with complete samples only, and no other shard is affected. After a crash at any point every "
  "index is the previous or the complete new one. With split ratios every shard is in exactly one split, the splits have "
  "the sizes asked for up to one shard, and the same seed gives the same splits; with patterns a shard is in every split it matches.",
  ["inputs", "crash_points", "fault_sequences", "configurations"],
  "all header and member sizes (solver integers), member sequences, cut positions, faults, crash points and ratios in tenths",
  "The tests prepare one regular data set; odd members, cut shards, write errors and rounding of ratios do not occur there.",
  [F + "prepare.py", F + "itar.py", F + "config.py", F + "structs.py"],
  [("WebdatasetPreparator.prepare_dataset", F + "prepare.py"), ("WebdatasetPreparator._preprocess_tar", F + "prepare.py"),
   ("WebdatasetPreparator.iter_dataset_content", F + "prepare.py"), ("TarIndexWriter", F + "itar.py")],
  ["index files, .info.yaml, split.yaml, samples loaded from the prepared data set"],
  "file system, tarfile and process pool are models; up to 4 members of 6 kinds, 3 shards, 13 shards for splits.")

M = S + "metadataset/"

P("C18", "Metadatasets resolve nested weights, splits, flavors and epochs exactly",
  "Loading a (nested) metadataset, of version 1 or 2, gives each innermost data set once, in order, with an absolute weight "
  "that is its share of the weights on every level; its split part is the one of the innermost reference that sets one, "
  "otherwise that of the call; subflavors are merged with those set further out taking precedence, likewise subflavor; the "
  "epochs to shuffle over are the product of all multipliers, where -1 (infinite) stays infinite; dataset_config and "
  "split_config are those of its reference. All other arguments reach each data set. A join is one data set, with its own "
  "settings applied over those of its parts.",
  ["inputs", "configurations"],
  "all weights and multipliers (solver numbers), every choice of the settings at every level",
  "The tests load a few fixed metadatasets; settings on several levels at once, infinite multipliers and joins with own "
  "settings do not occur there.",
  [M + "metadataset.py", M + "metadataset_v2.py", M + "dataset_loader.py", M + "join_dataset_loader.py", M + "loader.py"],
  [("DatasetReference / MetadatasetBlend / MetadatasetJoin.get_datasets", M + "metadataset_v2.py"),
   ("MetadatasetBlender.get_datasets", M + "metadataset.py"), ("JoinDatasetLoader.get_dataset", M + "join_dataset_loader.py")],
  ["data set factories returned by get_datasets, their arguments and weights"],
  "up to two levels, 5 references, 4 data sets in a blend; weights are positive, exact rational arithmetic.")

P("C22", "A failing user function costs exactly its samples and is reported once",
  "When a user function (cook, encode_sample, batch grouping, batching, packing, encode_batch, a map, stream or joiner function) "
  "raises SkipSample, exactly the samples it was called with are left out and no handler is called. When it raises an ordinary "
  "exception, the output is the same as if it had skipped, and the error handler is called exactly once, with that exception "
  "and those samples (their key, when reading); also in a run restored from a saved state. System errors (SystemError, SyntaxError, ImportError, MemoryError, RecursionError, "
  "ReferenceError, NameError, StopIteration, FatalSampleError) are never swallowed or handled: they end iteration as a "
  "FatalSampleError caused by them; an exception raised by the handler comes out as well. An error of the inner data set or of "
  "the storage is never mistaken for a bad sample or for the end of the epoch: it comes out after complete samples only.",
  ["inputs", "fault_sequences"],
  "every outcome of each user function call and every reading fault, for every exception type, on every wrapper and pipeline",
  "The tests raise one or two exceptions in one or two wrappers; which samples go missing around the failure, in partial "
  "batches and packs, and faults while reading are not sampled.",
  [W + "map_dataset.py", W + "iter_map_dataset.py", W + "batch_dataset.py", W + "group_batch_dataset.py", W + "packing_dataset.py",
   F + "error_handler.py", F + "sample_loader.py", F + "base_webdataset.py", S + "errors.py", S + "task_encoder/base.py"],
  [("MapDataset/BatchDataset/GroupBatchDataset/PackingDataset/IterMapDataset.__iter__", W + "map_dataset.py"),
   ("ErrorHandler", F + "error_handler.py")],
  ["outputs, handler calls and exceptions of a run whose functions fail, against a run whose functions skip"],
  "up to 5 samples per epoch, 2 epochs, batches and packs of 2, 3 shards; every call of a user function has its own outcome.")
P("C26", "Joined data sets pair each sample with its counterparts exactly once",
  "A joined data set (inner_match) yields each sample that is not excluded exactly once per epoch, joined with the samples of "
  "the same key of every other data set, with the complete content of each, for list, dict and sample class joiners, on every "
  "rank and worker. Saving and restoring continues with the same joined samples, and a restore key gives back the same joined "
  "sample. Differing shards, sample counts, keys or orders are reported: at construction or when the sample is reached, and a "
  "sample is never joined with a sample of another key, also when one of its parts cannot be read.",
  ["inputs", "configurations", "fault_sequences"],
  "symbolic member sizes and excludes, every save point, every deviation of the second data set within small data sets",
  "The tests join two small data sets once; resume, restore keys, failing parts and mismatches are not sampled.",
  [F + "joined_webdataset.py", F + "sample_loader.py", F + "base_webdataset.py", F + "sharder.py"],
  [("JoinedWebdatasetFactory", F + "joined_webdataset.py"), ("WebdatasetSampleLoaderDataset", F + "sample_loader.py")],
  ["the joined samples against the contents of the modelled tar files"],
  "2 or 3 data sets, up to 4 samples, 2 workers, 2 ranks, 2 epochs.")
P("C27", "Crude samples are cooked by the first matching cooker, others are left alone",
  "Every crude sample is passed to exactly one cooker: the first registered one whose conditions (is_subflavor, has_subflavors, "
  "condition) all hold for it, and the sample that comes out carries the key, restore key, subflavor and subflavors of the crude "
  "one. A filter that is not given does not restrict; subflavors of the sample that are not named in has_subflavors do not "
  "matter. A crude sample no cooker matches raises NotImplementedError (it is left out by the pipeline), it never reaches "
  "the encoder. Complete samples are passed on unchanged; anything else is rejected. A crude data set without registered cookers "
  "is rejected when the training or validation pipeline is built, wherever it is in the list of data sets.",
  ["inputs", "configurations"],
  "every combination of cooker filters, subflavors (unbounded integers) and condition outcomes",
  "The tests register one or two fixed cookers; partial matches, order and missing subflavors are not sampled.",
  [S + "task_encoder/cooking.py", S + "task_encoder/base.py", S + "flavors/crude.py",
   F + "default_generic_webdataset.py"],
  [("Cooker.is_match", S + "task_encoder/cooking.py"), ("TaskEncoder.cook_crude_sample", S + "task_encoder/base.py")],
  ["which cooker was called with which sample, against a formula for the first match"],
  "up to 3 cookers, 2 data sets of up to 2 samples, 2 subflavor names.")

P("C19", "Paths resolve, compare and reach the right place of the right file system",
  "For every path string: a local EPath denotes what POSIX does (redundant slashes and . removed, two leading slashes kept); "
  "rclone://R/p is the path /p on the file system made from the configuration of remote R, and every file operation uses exactly that path "
  "on that file system. base / rel is the lexical resolution of rel below base, an absolute rel replaces base; leading above the root of "
  "the file system (for a remote path: out of its remote) raises and never yields a path of another remote. str and EPath are inverse; "
  "parent, name, with_suffix, relative_to, glob agree with that (base / p.relative_to(base) == p). ==, hash and < agree; paths of "
  "different file systems are never equal, related or moved to each other. Operations leave their operands unchanged.",
  ["inputs", "configurations"],
  "every string of printable characters up to 7 (paths), every pair of base and relative path up to 7 characters together",
  "The tests use a handful of paths; dots, slashes and remotes in every position are not sampled.",
  [S + "epathlib/epath.py", S + "epathlib/rclone_config.py"],
  [("EPath", S + "epathlib/epath.py"), ("read_rclone_config_at_path", S + "epathlib/rclone_config.py")],
  ["str, name, parent, fs of paths", "calls arriving at the file systems"],
  "characters are printable ASCII; pathlib, posixpath and configparser are executed from their own source.")

P("C20", "Configuration values have their declared type or are rejected",
  "A raw configuration value (JSON/YAML) is accepted for a declared type (primitives, Any, Literal, Union, NamedTuple, dataclass, list, "
  "set, tuple, dict, EPath, Type, Callable) exactly if it has the form of that type, at every depth, and the result is the value of that "
  "type with the same contents; anything else raises ValueError. Omitted fields and arguments get their defaults as they are, missing "
  "required ones and (strict) unknown ones are rejected. A call made from a configuration happens once, with exactly these arguments, or not "
  "at all. Writing a typed value to JSON and reading it gives an equal value. The file overrides default settings of load_config; "
  "a given subflavor and given subflavors override those of the data set's file. Inputs are never changed.",
  ["inputs", "configurations"],
  "every raw value up to depth 3 of the stated forms with at most one place of a wrong form, for 32 types and 3 callables",
  "No test converts values of wrong types, partial records or positional arguments.",
  [S + "typed_converter.py", S + "dataset_config.py"],
  [("raw_to_typed", S + "typed_converter.py"), ("safe_call_function", S + "typed_converter.py"),
   ("get_dataset_from_config", S + "dataset_config.py")],
  ["converted values and calls against an independent definition of the types"],
  "lists of up to 3 elements, dicts of up to 2 entries, symbolic unbounded integers.")
P("C21", "Fields of samples are exactly the mapped parts of the tar file",
  "A field description is a comma separated list of options, each a name with any number of [key]s; an option of no such form is itself "
  "a name. The value of a field is that of the first option which is there (dict entries, list elements by index), and the sample fails "
  "with an ordinary error if none is. A mapped data set yields, in order, one sample of the declared type for each tar sample whose fields "
  "are all there, with the contents of exactly these parts, its key, restore key and flavors; the others are reported once to the error "
  "handler. A sample loader sees exactly the parts the filter accepts. Field maps with unknown or without required fields, both or "
  "neither of map and loader, and a loader without filter are rejected when the data set is made.",
  ["inputs", "configurations", "fault_sequences"],
  "every description of up to 6 printable characters, every nested value of depth 4 under up to 3 options, any presence of parts",
  "The tests use a few fixed field maps.",
  [F + "field_access.py", F + "default_generic_webdataset.py"],
  [("split_field_access", F + "field_access.py"), ("field_access", F + "field_access.py"),
   ("DefaultGenericWebdatasetFactory", F + "default_generic_webdataset.py")],
  ["parsed options against a grammar", "fields of the samples against the modelled tar file"],
  "up to 3 samples with up to 3 parts, 3 options; decoding of file contents is not part of it.")
P("C28", "Batches hold every field of every sample at its place, padded with zeros",
  "Batching tensors of any sizes gives one tensor with a leading batch dimension and the largest size in each dimension: element "
  "[i, p] is element p of sample i where that is inside the sample, and 0 elsewhere. batch_stack takes equal sizes only. concat_pad does the same along the existing "
  "batch dimension: the batches one after the other, the other dimensions padded; generic_concat and homogeneous_concat_mix at every tensor of a structure. The default batcher does "
  "this at every tensor inside dicts, dataclasses and named tuples and lists everything else in order; batchers given for fields are called "
  "once with all values in order. DefaultTaskEncoder returns the declared types with the same field values in encode_sample, batch "
  "and encode_batch. pin_memory returns the same structure with every tensor in it pinned. derive_from and extend keep the base fields.",
  ["inputs", "configurations"],
  "unbounded tensor sizes, up to 4 tensors of up to 3 dimensions; any structure of depth 1, any combination of types",
  "The tests batch equal shapes; sizes that differ per dimension, empty tensors, nested structures are not sampled.",
  [S + "task_encoder/base.py", S + "flavors/base_dataset.py", W + "mix_batch_dataset.py"],
  [("batch_pad_stack", S + "task_encoder/base.py"), ("DefaultTaskEncoder", S + "task_encoder/base.py"),
   ("PinMemoryMixin", S + "flavors/base_dataset.py")],
  ["the elements of the batch at a symbolic position against those of the samples"],
  "tensors are modelled as functions; replays use real tensors.")
P("C29", "An augmenting task encoder changes only what it overrides",
  "A pipeline built with AugmentTaskEncoder(encoder) yields the same samples and batches, with the same restore keys and indices, as one "
  "built with the encoder itself: cookers, sample encoding, grouping, packing, batching and batch encoding are all delegated, and methods "
  "the encoder does not have stay unused. It is rejected for the same configurations, restorable if and only if the encoder is, and resumes exactly. "
  "Overriding one method with a call to super() has the effect of overriding that method of the encoder, and no other.",
  ["inputs", "configurations", "histories"],
  "any outcomes of the user functions in 8 kinds of pipelines, each overridable method, every save point",
  "The single test augments encode_sample of one encoder.",
  [S + "task_encoder/base.py"],
  [("AugmentTaskEncoder", S + "task_encoder/base.py")],
  ["the stream of the augmented pipeline against the stream of the encoder's pipeline"],
  "up to 4 samples, 2 workers, 6 outputs.")

NA = {}
