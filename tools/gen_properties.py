#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R = "include/recovery/"; U = "include/utils/"; D = "include/index/disk/"; G = "include/index/graph/"
p("R01", "Write-ahead log replays exactly the acknowledged mutations",
  "After any crash, a restart replays every mutation whose commit was acknowledged exactly once, in operation order and with its exact payload, and never replays a mutation that was not committed, was torn, or is already covered by the applied-through point. This also holds for logs that were cut by a crash, reopened and appended to, for concurrent appenders, and when a write fails: an append that cannot be made durable is reported, not acknowledged.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "every interleaving of prepares and commits, every byte at which the file can be cut, any number of cut-and-append cycles, failing writes, concurrent appenders",
  "The recovery tests append a handful of records and corrupt a few hand-picked spots once; they never append after a torn tail, cut at every byte, or make a write fail.",
  [R + "write_ahead_log.hpp", U + "platform_fs.hpp", U + "binary_io.hpp"],
  [("prepare/commit frames with magic, sizes and trailer", R + "write_ahead_log.hpp append_frame"),
   ("frame scan that stops at the first invalid frame", R + "write_ahead_log.hpp replayable_records"),
   ("flush on every frame, fsync on commit", R + "write_ahead_log.hpp append_frame / platform_fs.hpp sync_file")],
  ["records returned by replay", "bytes and sync calls on the log file"])
p("R02", "Checkpoints are published atomically and operation ids never repeat",
  "Whatever instant a checkpoint is interrupted at, a restart finds either the previous checkpoint or the new one, complete, and that checkpoint plus the replayable log is exactly the acknowledged history. Operation ids handed out are strictly greater than every id used before, across checkpoints and restarts.",
  ["crash_points", "histories"],
  "every file-system call of publishing a checkpoint (process death, torn write, or loss of unsynced data) inside arbitrary histories of operations, checkpoints and restarts",
  "Tests publish checkpoints and restart cleanly; none dies inside the publication or compares ids across a checkpoint plus restart.",
  [R + "recovery_manager.hpp", R + "snapshot_manifest.hpp", R + "write_ahead_log.hpp"],
  [("manifest then CURRENT pointer, each written to a temporary and renamed", R + "recovery_manager.hpp publish_snapshot"),
   ("log truncated only after publication", R + "recovery_manager.hpp publish_snapshot"),
   ("next id from the checkpoint and the log", R + "recovery_manager.hpp next_operation_id")],
  ["current checkpoint", "replayable records", "ids handed out"])
p("S01", "Scalar store agrees with a map model across histories and reopen",
  "For any sequence of inserts, batch inserts, updates, upserts and deletions of scalar records, lookups by internal id and by item id, batch lookups, existence, record counts and full scans return exactly the live records, with item ids unique and old item ids and old field values no longer reachable. Closing and reopening the store, or restoring it from a checkpoint, changes none of these answers.",
  ["histories", "inputs"],
  "all operation histories over records with arbitrary item ids, documents and typed metadata, with reopen or checkpoint at any point",
  "Tests run a few fixed sequences with simple strings; they do not compare all read paths against a model after each step nor reopen mid-history.",
  ["include/storage/rocksdb_storage.hpp", U + "scalar_data.hpp"],
  [("primary record, item-id index and per-field index written in one batch", "include/storage/rocksdb_storage.hpp insert/update/remove"),
   ("cached record count", "include/storage/rocksdb_storage.hpp count"),
   ("checkpoint and reopen", "include/storage/rocksdb_storage.hpp")],
  ["results of every read API"])
p("S02", "A metadata filter means the same on every execution path",
  "The set of records selected by a metadata filter is exactly the records whose metadata satisfies it, whether the filter is answered from a field index, by scanning, or record by record, for every operator, value type and nesting of and/or/not. Results never depend on which fields happen to be indexed, on the characters in names or values, or on the order in which records were written.",
  ["inputs", "configurations", "histories"],
  "all filter trees, all value types including extreme numbers, empty strings and strings containing separators, and all choices of indexed fields",
  "Tests use a few well-behaved field names and values and check the indexed and unindexed paths on different examples instead of against each other.",
  [U + "metadata_filter.hpp", U + "metadata_filter_matcher.hpp", U + "index_encoding.hpp", "include/storage/rocksdb_storage.hpp", U + "query_utils.hpp"],
  [("record-by-record evaluation", U + "metadata_filter.hpp evaluate"),
   ("order-preserving index keys and prefix/range scans", U + "index_encoding.hpp, include/storage/rocksdb_storage.hpp"),
   ("choice between indexed lookup and scan", U + "metadata_filter_matcher.hpp")],
  ["ids selected by each path"])
p("S03", "Encodings round-trip, preserve order, and survive hostile bytes",
  "Every scalar record and every binary value decodes to what was encoded, and the sortable encodings of numbers and strings compare exactly as the values do. Decoding arbitrary, truncated or corrupted bytes either yields a value or reports an error, without touching memory outside the input.",
  ["inputs"],
  "all values of every supported type including extremes, all prefixes and mutations of encoded records",
  "Tests encode a few typical values; they cannot cover the full numeric range, or mutated inputs under a memory checker.",
  [U + "scalar_data.hpp", U + "index_encoding.hpp", U + "binary_io.hpp", R + "snapshot_manifest.hpp"],
  [("tagged metadata serialization with bounds checks", U + "scalar_data.hpp serialize/deserialize"),
   ("sign-flipping big-endian keys", U + "index_encoding.hpp"),
   ("bounded reader", U + "binary_io.hpp")],
  ["decoded values", "memory accesses (sanitizers)"])
p("V01", "Every SIMD kernel computes the mathematical distance",
  "For every vector dimension, alignment and input within range, each distance and transform kernel (L2 and inner product on floats and on 8-bit and 4-bit codes, the fast Hadamard transform, and the runtime-selected variants) returns the scalar definition's value up to floating-point rounding and reads nothing outside its inputs. Every instruction-set variant available on the machine agrees.",
  ["inputs", "configurations"],
  "all dimensions including those that are not multiples of the vector width, all value patterns, every variant the CPU supports",
  "Tests check a few dimensions with random data; tails, extreme codes and out-of-bounds reads at odd sizes are not covered.",
  ["include/simd/distance_l2.hpp", "include/simd/distance_ip.hpp", "include/simd/fht.hpp", "include/simd/laser_dispatch.hpp", "include/simd/cpu_features.hpp"],
  [("per-ISA kernels with tail handling", "include/simd/"), ("runtime dispatch on CPU features", "include/simd/cpu_features.hpp")],
  ["kernel results", "memory accesses (guard pages, sanitizers)"])
p("V02", "Vector spaces keep every live vector exactly, through save and load",
  "For any history of fitting, inserting and removing vectors, a space reports the right item count, returns each live vector unchanged under the id it was given, and computes the metric's true distance between any two of them and to any query. Refused operations (space full, unknown id) change nothing, ids are never handed out twice, and a saved and reloaded space answers identically.",
  ["histories", "inputs", "configurations"],
  "all histories of fit/insert/remove/save/load for every metric, dimension, capacity and element type",
  "Tests fit one small dataset and check a few distances; they do not fill spaces to capacity, mix removals with inserts, or compare before and after reload.",
  ["include/space/raw_space.hpp", "include/storage/sequential_storage.hpp", "include/space/sq8_space.hpp", "include/space/sq4_space.hpp"],
  [("slot storage with validity bitmap", "include/storage/sequential_storage.hpp"),
   ("metric normalisation and distance function selection", "include/space/raw_space.hpp"),
   ("save/load of counters and storage", "include/space/raw_space.hpp")],
  ["ids, counts, stored vectors, distances"])
p("V03", "Quantized spaces approximate distances within their step size",
  "Scalar quantization maps every component to the nearest representable level below it within the range learned from the data, so that distances computed from codes differ from the true distance by no more than the quantization step allows, in every dimension, odd or even. Values at or beyond the learned range saturate, and codes and ranges survive save and load. RaBitQ estimates concentrate around the true distances at every dimension, before and after save and load.",
  ["inputs", "configurations", "histories"],
  "all datasets including constant dimensions and widely different per-dimension ranges, all dimensions, 4-bit and 8-bit codes, every metric",
  "Tests check shapes and a few values on data whose dimensions share a range, so per-dimension mistakes and dropped components stay invisible.",
  ["include/space/sq8_space.hpp", "include/space/sq4_space.hpp", "include/space/quant/sq8.hpp", "include/space/quant/sq4.hpp", "include/simd/distance_l2.hpp", "include/simd/distance_ip.hpp"],
  [("per-dimension min/max and encoding", "include/space/quant/"), ("code distance kernels", "include/simd/"), ("query computer", "include/space/sq4_space.hpp, include/space/sq8_space.hpp")],
  ["code distances against reconstructed vectors"])
p("G01", "In-memory graph search returns valid, distinct, correctly ranked results",
  "A search over an in-memory graph index (HNSW, NSG, fusion graph, RaBitQ) returns at most k distinct ids of vectors that exist, ordered by distance, with each reported distance equal to the index's distance for that vector, and with high recall that reaches the exact answer when the search effort covers the whole collection. The answer is the same whether run alone, in a coroutine batch, or on several threads, and the same after the index is saved and loaded.",
  ["inputs", "configurations", "schedules"],
  "all datasets (including duplicates and tiny sets), k and ef, metrics, quantizations, graph types, batch widths and thread counts",
  "Graph search tests need a dataset download and are not run; the rest check one recall value.",
  ["include/executor/jobs/graph_search_job.hpp", "include/executor/scheduler.hpp", "include/executor/worker.hpp", G + "hnsw/hnsw_builder.hpp", G + "nsg/nsg_builder.hpp", G + "knng/nndescent.hpp", G + "fusion_graph.hpp", G + "graph.hpp", G + "qg/qg_builder.hpp", "include/space/rabitq_space.hpp", "include/utils/query_utils.hpp"],
  [("best-first search over a bounded pool", "include/executor/jobs/graph_search_job.hpp"), ("graph construction and connectivity", G), ("bounded sorted pool", "include/utils/query_utils.hpp")],
  ["ids and distances returned", "saved and reloaded index"])
p("G02", "Dynamic updates: what was inserted is found, what was removed never is",
  "Under any history of inserts, upserts and removals on an in-memory graph index, a search never returns a removed vector, an inserted vector is found when queried for, and an update replaces the old vector under its id. Neighbour lists stay within bounds and point only at existing vectors, and refused updates leave the index unchanged.",
  ["histories", "inputs"],
  "all update histories on raw and scalar-quantized indexes, including removing entry points, filling to capacity and re-inserting",
  "The update tests depend on a dataset download and are skipped; nothing mixes removals, inserts and searches over long histories.",
  ["include/executor/jobs/graph_update_job.hpp", "include/executor/jobs/job_context.hpp", G + "graph.hpp", G + "overlay_graph.hpp", "include/space/raw_space.hpp"],
  [("edge repair on insert and removal", "include/executor/jobs/graph_update_job.hpp"), ("removed marks consulted by search", "include/executor/jobs/job_context.hpp, include/executor/jobs/graph_search_job.hpp")],
  ["search results after every step", "neighbour lists"])
p("G03", "Filtered vector search returns only matching vectors, nearest first",
  "A vector search with a metadata filter returns only vectors whose metadata satisfies the filter, each at most once, with item ids belonging to them, and as many matches as exist up to k when the search effort allows (the approximate strategies find nearly all of the nearest ones; the iterative strategy takes matches in the order its traversal meets them). Every execution strategy (prefilter, iterative filter, brute force, single or batch) obeys this, and the exact strategies return exactly the nearest matches.",
  ["inputs", "configurations", "schedules"],
  "all filters from matching nothing to everything, all strategies, k larger than the number of matches, deletions before the search",
  "The hybrid-search tests need a dataset download and are not run; strategies are never compared with each other.",
  ["include/executor/jobs/graph_hybrid_search_job.hpp", U + "metadata_filter_matcher.hpp", "include/executor/vector_iterator.hpp", "python/include/index.hpp", "python/include/materialized_view.hpp"],
  [("strategy selection and bitset prefilter", "include/executor/jobs/graph_hybrid_search_job.hpp"), ("predicate evaluation", U + "metadata_filter_matcher.hpp")],
  ["ids and item ids returned by each strategy"])
p("U01", "Vamana graphs are well formed, reachable and reproducible",
  "For any dataset and build parameters, a built Vamana graph gives every vector only distinct in-range neighbours other than itself, no more than the degree bound, and (unless the degree bound is tiny) practically every vector, or an identical copy of it, reachable from the entry point; greedy search over it finds true nearest neighbours with high recall. The same input, seed and single thread give the same graph, and a saved graph reads back identically.",
  ["inputs", "configurations", "schedules"],
  "all datasets including duplicates, clusters and tiny sets, all degree/beam/alpha choices, any number of threads",
  "Tests check one or two random datasets for degree and recall; duplicates, tiny sets and thread interleavings are not covered.",
  [G + "vamana/vamana_builder.hpp", G + "vamana/robust_prune.hpp", G + "vamana/vamana_greedy_search.hpp", G + "vamana/vamana_writer.hpp", G + "vamana/vamana_reader.hpp"],
  [("link pass with robust pruning and reverse edges", G + "vamana/vamana_builder.hpp"), ("file writer and validating reader", G + "vamana/vamana_writer.hpp, vamana_reader.hpp")],
  ["neighbour lists", "search results", "graph file"])
p("U02", "Partitioned Vamana build equals one index over all the data",
  "Building through partitions under a memory budget assigns every vector to at least one and at most the configured number of partitions, loses and duplicates none in the merge, and yields a graph file with the same guarantees as a single-shot build: valid distinct neighbours within the degree bound and high recall. The entry point is the vector nearest to the centre. A budget that cannot be met is refused without leaving a graph.",
  ["inputs", "configurations"],
  "all datasets and budgets that force one or more partitions, all degree bounds, sampling rates and thread counts",
  "Tests run the partition pieces on one dataset and check sizes; they do not verify coverage, edge validity and recall of merged graphs across configurations.",
  [G + "vamana/build_dispatch.hpp", G + "vamana/kmeans_partition.hpp", G + "vamana/shard_assigner.hpp", G + "vamana/shard_merger.hpp", G + "vamana/budget_estimator.hpp"],
  [("k-means partition and closest-centroid assignment", G + "vamana/kmeans_partition.hpp, shard_assigner.hpp"), ("merge of shard graphs with id maps", G + "vamana/shard_merger.hpp")],
  ["shard id maps", "merged graph", "recall"])
p("U03", "Corrupted on-disk index files are refused, never misread",
  "Opening a graph, vector, segment, manifest, or index file that was truncated, extended or altered either fails with an error or yields an index whose searches stay within the data that is there. No such file makes the process read or write outside its memory, crash, or return an id that does not exist.",
  ["inputs", "fault_sequences"],
  "all truncations and byte corruptions of Vamana graph files, disk segments, collection manifests, LASER segments and DiskANN index files",
  "Tests corrupt a few header fields; they do not enumerate truncations and mutations nor watch memory accesses while doing so.",
  [G + "vamana/vamana_reader.hpp", D + "segment_manifest.hpp", D + "segment_factory.hpp", D + "disk_flat_searcher.hpp", D + "vamana_segment_searcher.hpp", D + "laser_segment_searcher.hpp", D + "disk_collection.hpp", "include/storage/mmap_file.hpp", G + "diskann/node_cache.hpp", G + "diskann/slot_allocator.hpp", G + "diskann/pq_table.hpp", G + "diskann/disk_layout.hpp"],
  [("strict manifest parsers", D + "segment_manifest.hpp"), ("size and range validation on load", G + "vamana/vamana_reader.hpp, " + D + "disk_flat_searcher.hpp")],
  ["load outcome, search results, memory accesses (sanitizers)"])
p("D01", "Disk collections behave like a map of labelled vectors, searched exactly",
  "For any history of adds, flushes, reopens and searches, a disk collection contains exactly the vectors that were added, searches over flat segments return the exact k nearest across all segments in (distance, label) order with true distances for every metric, and batch search equals the single searches. Repeated labels and vectors that are not finite or have no direction are refused, when added or at the latest when flushed, and a refused flush changes nothing of what is stored.",
  ["histories", "inputs", "configurations"],
  "all add/flush/reopen/search histories over any number of segments, metrics, dimensions and k, with ties and duplicate vectors",
  "Tests use two or three segments and a few queries; ties across segments, refused batches and reopen in mid-history are not compared with a reference.",
  [D + "disk_collection.hpp", D + "disk_flat_builder.hpp", D + "disk_flat_searcher.hpp", D + "types.hpp", D + "segment_manifest.hpp", D + "vamana_segment_builder.hpp", D + "vamana_segment_searcher.hpp"],
  [("memtable and immutable segments", D + "disk_collection.hpp"), ("exact top-k scan and merge", D + "disk_flat_searcher.hpp, " + D + "disk_collection.hpp")],
  ["search results, counts, refused operations"])
p("D02", "A flush is all or nothing at every crash point",
  "If the process or machine dies at any point while a disk collection creates, flushes or publishes a segment, reopening succeeds and shows exactly the vectors flushed before plus all or none of the interrupted flush (a collection whose creation was interrupted is empty or refused). A flush that reports an error changes nothing and can be repeated. Left-over files neither appear as data nor prevent later flushes.",
  ["crash_points", "fault_sequences"],
  "every file-system call of collection creation and segment publication, under process death, torn writes, failed calls and loss of unsynced data",
  "Tests only simulate two hand-made left-over states; they never die inside a flush.",
  [D + "disk_collection.hpp", D + "disk_flat_builder.hpp", D + "vamana_segment_builder.hpp", U + "platform_fs.hpp", D + "segment_manifest.hpp"],
  [("segments built in a temporary directory, synced and renamed", D + "disk_flat_builder.hpp"), ("collection manifest replaced atomically", D + "disk_collection.hpp")],
  ["reopened collection after each crash point"])
p("D03", "Only one writer, consistent concurrent readers",
  "At most one writer at a time can hold a disk collection, across threads and processes, and the lock is free again once the holder closes it or dies. Searches running concurrently with each other, with batch searches and with the collecting of new rows never race, crash or return anything but correct answers for a published state.",
  ["schedules", "fault_sequences"],
  "all interleavings of opens, flushes and holder deaths across threads and processes; of searches, batch searches and adds on one object (flushing while searching the same object is not supported)",
  "Tests try two opens in sequence and a small batch; interleavings and data races are not observable without a race detector.",
  [D + "disk_collection.hpp", D + "disk_flat_searcher.hpp", D + "vamana_segment_searcher.hpp", U + "thread_pool.hpp"],
  [("collection lock file", D + "disk_collection.hpp"), ("per-call search state", D + "disk_collection.hpp batch_search")],
  ["lock outcomes, concurrent results, race reports"])
p("N01", "DiskANN search returns existing labels with their true distances",
  "A DiskANN search returns at most k distinct labels of live vectors in ascending distance; without PQ, or with reranking, each reported distance is the exact one, and with effort covering the collection the result is exactly the nearest neighbours. Deterministic searches repeat identically, batch and pipelined searches agree with single ones, and none of this depends on cache ratio, beam width, I/O back end or page cache. A read that fails makes the search fail with an exception, and the index answers as before once reads succeed again.",
  ["inputs", "configurations", "schedules"],
  "all datasets, dimensions (several nodes per page or several pages per node), degrees, PQ settings, cache ratios, beam widths, I/O back ends and thread counts",
  "These tests need a library that is absent here; upstream they check recall on a few shapes.",
  [G + "diskann/diskann_index.hpp", G + "diskann/beam_search.hpp", G + "diskann/beam_search_async.hpp", G + "diskann/disk_layout.hpp", G + "diskann/node_cache.hpp", G + "diskann/search_scratch.hpp", G + "diskann/pq_table.hpp"],
  [("page layout and record reads", G + "diskann/disk_layout.hpp"), ("beam search over cached and disk nodes", G + "diskann/beam_search.hpp"), ("async variants", G + "diskann/beam_search_async.hpp")],
  ["labels and distances returned"])
p("N02", "DiskANN updates: live labels exactly, before and after reopen",
  "Under any history of single and batch inserts and removals, a DiskANN index contains exactly the live labels: removed ones are never returned, inserted ones are found under their label with their true distance, counts match, and refused calls (duplicate, unknown or reserved labels) change nothing. After a flush and reopen the index answers as before, with slots reused safely.",
  ["histories", "configurations"],
  "all insert/remove/batch/flush/reopen histories with slot reuse, PQ on or off, every update I/O back end and cache size",
  "These tests need a library that is absent here; upstream they follow a few scripted traces.",
  [G + "diskann/diskann_index.hpp", G + "diskann/disk_page_io.hpp", G + "diskann/slot_allocator.hpp", G + "diskann/tombstone_bitmap.hpp", G + "diskann/disk_update_context.hpp", G + "diskann/disk_page_cache.hpp", G + "diskann/node_cache.hpp"],
  [("slot allocation, tombstones and publication order", G + "diskann/slot_allocator.hpp"), ("in-place page writes with write-back cache", G + "diskann/disk_page_io.hpp"), ("reconnection of neighbours", G + "diskann/diskann_index.hpp")],
  ["labels, distances, counts after each step and after reopen"])
p("N03", "DiskANN searches stay correct while updates run",
  "Searches running concurrently with inserts, batch inserts, removals and flushes never race, hang or crash; they never return a label whose removal had completed before the search began, a label that was never inserted, or the same label twice. When the updates stop, the index is in the same state as if they had run one after another.",
  ["schedules"],
  "all interleavings of search threads with serialized update calls and their internal workers",
  "These tests need a library that is absent here; a handful of upstream stress loops watch only for crashes.",
  [G + "diskann/diskann_index.hpp", G + "diskann/disk_page_io.hpp", G + "diskann/node_cache.hpp", G + "diskann/disk_page_cache.hpp", G + "diskann/tombstone_bitmap.hpp", "include/storage/io/uring_reactor.hpp", U + "coro_gate.hpp"],
  [("snapshot of tombstones per search", G + "diskann/diskann_index.hpp"), ("shared/exclusive state lock and dark slots", G + "diskann/diskann_index.hpp"), ("striped locks in page I/O and caches", G + "diskann/disk_page_io.hpp")],
  ["timestamped operation log", "race reports"])
p("N04", "DiskANN building blocks agree with their abstract models",
  "The slot allocator never hands out a live slot and reuses freed ones, the tombstone and visited bitmaps agree with a set through growth, snapshots and reset, page reads return the last written record whatever is cached or evicted meanwhile, and the node layout and caches return each node's exact vector and neighbours, whole and current under concurrent use. All survive flush, save and load.",
  ["histories", "inputs", "schedules"],
  "all operation sequences on each structure, at and across word, page and capacity boundaries, and concurrent use where it is allowed",
  "Tests check a few operations on each structure; growth across boundaries and long mixed histories are not compared with a model.",
  [G + "diskann/slot_allocator.hpp", G + "diskann/tombstone_bitmap.hpp", G + "diskann/visited_bitset.hpp", G + "diskann/disk_page_cache.hpp", G + "diskann/disk_layout.hpp", G + "diskann/node_cache.hpp", G + "diskann/disk_page_io.hpp", G + "diskann/search_scratch.hpp"],
  [("bit sets and free lists", G + "diskann/"), ("LRU page cache with dirty tracking", G + "diskann/disk_page_cache.hpp"), ("geometry of nodes in pages", G + "diskann/disk_layout.hpp")],
  ["results of every operation against the model"])
p("N05", "Product quantization encodes to the nearest code and measures it exactly",
  "Each vector's PQ code names the nearest centroid in every chunk, the table distance of a code equals the exact distance between the query and the code's reconstruction, and symmetric distances equal those between reconstructions. Training is reproducible for a seed and thread count, and tables and codes survive save and load and single-vector re-encoding.",
  ["inputs", "configurations"],
  "all datasets including fewer points than centroids and duplicates, all chunk counts, threads and seeds",
  "Tests check reconstruction error on one random dataset; they do not verify optimality of codes or exactness of table distances.",
  [G + "diskann/pq_table.hpp"],
  [("k-means training per chunk", G + "diskann/pq_table.hpp train"), ("encode and distance tables", G + "diskann/pq_table.hpp encode")],
  ["codes, centroids, distances"])
p("X01", "Task executors and queues run every task exactly once",
  "Every task or coroutine handed to a thread pool, scheduler, task queue or gate runs exactly once and to completion, waiting returns only after all submitted work has finished, results and exceptions reach the right caller, and queues neither lose, duplicate nor invent items. Locks exclude, and none of this races or hangs under any interleaving or shutdown.",
  ["schedules"],
  "all interleavings of producers, consumers, waits and shutdown, with any number of threads (at least one) and any number of tasks, including none",
  "Tests submit a few tasks; rare interleavings and data races need stress under a race detector.",
  [U + "thread_pool.hpp", "include/executor/scheduler.hpp", "include/executor/worker.hpp", "include/executor/task_queue.hpp", U + "locks.hpp", U + "coro_gate.hpp", G + "laser/utils/concurrent_queue.hpp"],
  [("condition variables and counters", U + "thread_pool.hpp"), ("lock-free task queue and finish counters", "include/executor/"), ("futex-style locks", U + "locks.hpp")],
  ["per-task execution counts, race reports"])
p("X02", "Search bookkeeping structures agree with their mathematical meaning",
  "The bounded candidate pool always holds the best candidates seen, sorted and each at most once, and hands out each once in order; bit sets, epoch sets and hash sets used to mark visited vectors agree with a set, through resets and wrap-around. Top-k selection and merging return the k smallest in order for any input.",
  ["inputs", "histories"],
  "all insertion orders including ties, duplicates and overflow, all sizes across word boundaries, arbitrarily many resets",
  "Tests insert a few values; wrap-around after thousands of resets, ties and boundary sizes are not reached.",
  [U + "query_utils.hpp", "include/index/neighbor.hpp", U + "rabitq_utils/search_utils/hashset.hpp", U + "rabitq_utils/search_utils/buffer.hpp", G + "laser/utils/buffer.hpp", "include/third_party/ngt/hashset.hpp"],
  [("sorted bounded pool", U + "query_utils.hpp LinearPool"), ("epoch and hierarchical bit sets", U + "query_utils.hpp")],
  ["contents after every operation"])
p("L01", "LASER on-disk graph search returns real neighbours with true order",
  "A LASER index built from data answers every search with at most k distinct existing ids in order of distance and high recall, independent of the number of threads, beam width, cache size and batch shape. Importing it as a segment of a disk collection preserves labels and answers.",
  ["inputs", "configurations", "schedules"],
  "all supported dimensions, degrees, thread counts, beam widths, cache ratios and batch sizes",
  "Tests use one committed fixture and compare a few queries.",
  [G + "laser/qg/qg.hpp", G + "laser/qg/qg_builder.hpp", G + "laser/qg/qg_query.hpp", G + "laser/qg/qg_scanner.hpp", G + "laser/quantization/fastscan_impl.hpp", G + "laser/utils/aligned_file_reader.hpp", D + "laser_segment_importer.hpp", D + "laser_segment_searcher.hpp"],
  [("quantized graph on disk", G + "laser/qg/"), ("async aligned reads", G + "laser/utils/"), ("segment import", D + "laser_segment_importer.hpp")],
  ["ids and distances returned"])
p("L02", "Every asynchronous reader delivers exactly the file's bytes",
  "For any set of aligned read requests, each I/O engine (asynchronous kernel I/O, io_uring, thread pool) fills every buffer with exactly the file's bytes at the requested offset, completes each request exactly once, and reports short or failed reads as errors. Memory-mapped files expose exactly the file's contents, and concurrent use by registered threads does not mix requests.",
  ["inputs", "schedules", "fault_sequences"],
  "all request patterns, sizes, queue depths and thread counts, and reads past the end or on closed files",
  "Tests read a few blocks back in one thread.",
  ["include/storage/io/io_uring_engine.hpp", "include/storage/io/io_engine.hpp", "include/storage/io/uring_reactor.hpp", "include/storage/mmap_file.hpp", G + "laser/utils/aligned_file_reader.hpp", G + "laser/utils/threadpool_file_reader.hpp"],
  [("submission and completion accounting", "include/storage/io/"), ("per-thread contexts", G + "laser/utils/")],
  ["buffers, completion counts, error results"])
p("P01", "Python collections behave like a dictionary of documents with vectors",
  "For any history of insert, upsert, delete by id or filter, reindex, save, close and load, a Python collection's get, filter, hybrid and batch queries return exactly the live documents with their own vectors, documents and metadata, for every supported metric, data type and quantization. Deleted or replaced content never reappears, including after reload.",
  ["histories", "inputs", "configurations"],
  "all operation histories through the public Python API, over metadata types and filters, metrics, data types, quantizations and persistence points",
  "The extension module cannot be built in the test environment, so these tests do not run at all; upstream ones follow short scripts.",
  ["python/include/index.hpp", "python/src/alayalite/collection.py", "python/src/alayalite/index.py", "python/src/alayalite/client.py", "python/include/dispatch_generated.hpp", "python/include/materialized_view.hpp", "python/src/alayalite/common.py", "python/src/alayalite/schema.py"],
  [("Python wrapper over the native index", "python/src/alayalite/collection.py"), ("native index with scalar storage", "python/include/index.hpp")],
  ["results of the Python API"])
p("P02", "A crashed collection recovers to its acknowledged history",
  "If the process is killed at any moment while a durable collection is being built, updated, saved or reloaded, opening it again yields exactly the acknowledged operations, plus possibly the one in flight, applied once: same live items, same documents and metadata, same vectors. Recovery itself may be interrupted and repeated any number of times.",
  ["crash_points", "histories"],
  "a kill at every file-system call of update, checkpoint and recovery code, over arbitrary histories with repeated crashes",
  "Nothing in the test suite kills a process; recovery tests reopen after clean shutdowns.",
  ["python/include/index.hpp", R + "recovery_manager.hpp", R + "write_ahead_log.hpp", "include/storage/rocksdb_storage.hpp", "include/space/raw_space.hpp", "python/src/alayalite/collection.py"],
  [("prepare, apply, commit protocol", "python/include/index.hpp"), ("checkpoint and replay on load", "python/include/index.hpp")],
  ["collection contents after each kill and reopen"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
if __name__ == "__main__":
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, s)
        assert len(x["title"]) <= 80, x["id"]
        for fl in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + fl): print("missing", fl)
