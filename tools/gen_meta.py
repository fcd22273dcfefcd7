#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below and checks.py (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe=(), state=(), tech="", note=""):
    assert len(title) <= 80, (pid, len(title))
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                                mechanism=[dict(zip(("name", "where"), m)) for m in mech], observe_at=list(observe),
                                hook_needed=None)), tech, note))


prop("P01", "Every vector distance kernel computes its metric at every dimension and width",
     "For every vector pair, dimension and buffer alignment, the distance returned by any available instruction-set variant of a kernel (generic, AVX2, AVX-512 and whatever the dispatcher picks), for float and for 8-bit and 4-bit scalar-quantized codes, equals the mathematical squared-L2 or negated inner product (cosine: of the normalised vectors) within floating-point rounding, and all variants agree. No kernel reads outside the vectors it was given.",
     ["inputs", "configurations"], "all dimensions (full blocks and every tail length), alignments, value distributions, kernels and metrics",
     "Unit tests sample a few dimensions and random vectors; a wrong tail, mask or lane shows only at particular dim mod width, and only on the instruction set that is picked.",
     ["include/simd/distance_l2.hpp", "include/simd/distance_ip.hpp", "include/simd/distance_l2_sq8.hpp", "include/simd/distance_ip_sq4.hpp", "include/simd/laser_dispatch.hpp", "include/utils/math.hpp"],
     [("runtime dispatch", "include/simd/distance_l2.hpp"), ("per-ISA kernels with tail loops", "include/simd/*.ipp")], ["kernel return values"],
     tech="property-based testing: differential against a long-double oracle, guarded exact-size buffers, ASan",
     note="Random exploration; every dimension from 1 to several block widths is reached in each run, on the instruction sets this CPU offers.")
prop("P02", "Scalar quantization: bounded error, exact code semantics, stable on reload",
     "For every data set, encoding a vector with 8-bit or 4-bit scalar quantization and decoding it yields each coordinate within one quantization step of the coordinate clamped to the trained range, and the distance reported between codes equals the distance between the vectors those codes stand for. Constant, extreme and out-of-range coordinates never produce a code outside the code range, and a saved and reloaded quantizer encodes identically.",
     ["inputs"], "all training sets, dimensions (odd ones included), query vectors inside and outside the trained range",
     "Existing tests check a handful of codes of small even-dimensional vectors; the composition of encoder and distance kernels is never checked.",
     ["include/space/quant/sq8.hpp", "include/space/quant/sq4.hpp", "include/space/sq8_space.hpp", "include/space/sq4_space.hpp"],
     [("fit/encode", "include/space/quant/sq8.hpp, sq4.hpp"), ("distance on codes", "include/simd/distance_*_sq*.hpp")], ["encoded codes", "distances of the quantized spaces"],
     tech="property-based testing: reference decoder and metamorphic distance relation", note="Random exploration of training sets and queries against an arithmetic reference.")
prop("P03", "Rotations preserve geometry; binary-code distance estimates obey their formula",
     "Every fast Hadamard transform variant equals the Hadamard matrix product, and every random rotation preserves norms and inner products for every vector and survives a save/load round trip. Packed binary codes scanned through lookup tables give exactly the table sums of the unpacked bits, and the estimated distance of a binary-quantized vector equals its defining formula within lookup-table rounding.",
     ["inputs", "configurations"], "all vectors, sizes 2^1..2^20 in range, dimensions, rotator kinds, code batches",
     "Tests run a few seeds and sizes; sign errors, wrong packing order or missing tail blocks only show at certain sizes and positions.",
     ["include/simd/fht.hpp", "include/utils/rabitq_utils/rotator.hpp", "include/utils/rabitq_utils/fastscan.hpp", "include/utils/rabitq_utils/lut.hpp", "include/space/quant/rabitq.hpp", "include/index/graph/laser/quantization"],
     [("FHT kernels", "include/simd/fht*"), ("rotators", "include/utils/rabitq_utils/rotator.hpp"), ("pack/accumulate", "include/utils/rabitq_utils/fastscan.hpp")], ["transform outputs", "accumulator values", "estimated distances"],
     tech="property-based testing: naive Walsh-Hadamard, isometry metamorphic relations, bit-level reference scan", note="Random exploration over sizes and seeds.")
prop("P04", "Vector spaces behave as a keyed store of vectors across history and reload",
     "After any sequence of fits, inserts, removes and save/load, each vector space reports exactly the live count, returns for every live id the vector and metadata stored for it, answers distances of the stored vectors by its metric, and a reloaded space answers every question identically. Ids are never handed out twice while live, and inserts beyond capacity are refused without disturbing stored data.",
     ["histories", "configurations"], "all operation sequences over raw, 8-bit, 4-bit and binary-quantized spaces, metrics, id widths, dimensions, capacities",
     "Tests run fixed three-step scripts; slot reuse, capacity edges and reload after removals need longer histories.",
     ["include/space/raw_space.hpp", "include/space/sq8_space.hpp", "include/space/sq4_space.hpp", "include/space/rabitq_space.hpp", "include/storage/sequential_storage.hpp", "include/storage/static_storage.hpp"],
     [("slot storage with free list/bitmap", "include/storage/sequential_storage.hpp"), ("space wrappers", "include/space/*.hpp")], ["get_data_by_id", "get_distance", "get_data_num", "query computer"],
     tech="stateful model-based testing against a map model", note="Random operation histories, compared after every step.")
prop("P05", "Graph indexes return valid, ordered, correct nearest neighbours",
     "For every data set, metric, graph type and search width, a search returns distinct live ids in ascending distance order, each with its true distance, and when the search width covers the whole connected data set it returns the exact nearest neighbours. Blocking, coroutine and batched searches give the same answers, and a saved and reloaded index answers the same.",
     ["inputs", "configurations"], "all data sets (duplicates, tiny, clustered), k, ef, graph builders, metrics, threads",
     "Tests assert recall thresholds on one random set; they cannot show that no returned id is wrong, repeated or deleted.",
     ["include/executor/jobs/graph_search_job.hpp", "include/index/graph/graph.hpp", "include/index/graph/hnsw", "include/index/graph/nsg", "include/index/graph/knng", "include/index/graph/qg", "include/index/graph/fusion_graph.hpp"],
     [("best-first search", "include/executor/jobs/graph_search_job.hpp"), ("builders", "include/index/graph/*")], ["result ids and distances"],
     tech="property-based testing: brute-force oracle and differential solo/coroutine/batch/reload", note="Random exploration of small data sets where exhaustive answers are known.")
prop("P06", "Inserts and removals keep a dynamic index consistent",
     "After any sequence of inserts, updates and removals on a graph index, every live vector can be found by searching for it with a sufficient search width, no removed vector is ever returned, and each returned id maps to the vector last stored under it. The graph never references a slot that does not exist.",
     ["histories"], "all interleavings of insert/remove/update/search/save/load",
     "Tests insert and delete once; slot reuse after removal and repair of neighbour lists need histories.",
     ["include/executor/jobs/graph_update_job.hpp", "include/index/graph/graph.hpp", "include/executor/jobs/job_context.hpp"],
     [("edge repair", "include/executor/jobs/graph_update_job.hpp")], ["search results", "graph edges"],
     tech="stateful model-based testing", note="Random histories on small indexes.")
prop("P07", "Filtered vector search returns only matching items, best first, none missed",
     "For every data set, filter, k and search width, a filtered search returns only live items whose metadata satisfies the filter, in ascending distance order without repeats, and returns as many matching items as exist up to k when the search is exhaustive. Filter-only queries return exactly the matching set up to the limit.",
     ["inputs", "configurations"], "all filters, selectivities, execution strategies and data sets",
     "Tests use a single selectivity; strategy switches happen at thresholds no test crosses.",
     ["include/executor/jobs/graph_hybrid_search_job.hpp", "include/utils/metadata_filter_matcher.hpp", "include/utils/query_utils.hpp"],
     [("strategy selection and filtered search", "include/executor/jobs/graph_hybrid_search_job.hpp")], ["result ids"],
     tech="property-based testing against brute-force filtered search", note="Random exploration over filters and data.")
prop("P08", "Metadata filters mean the same everywhere: evaluation, index plan and query DSL",
     "For every filter tree and metadata record, evaluating the filter directly, through compiled matchers and through index-accelerated candidate lookup gives the same decision, and that decision is the documented meaning of the operators (comparison, membership, substring, AND/OR/NOT, missing fields, type mismatches). A filter written in the Python query language selects exactly the records its documented meaning selects.",
     ["inputs", "programs"], "all filter trees, value types, missing and mismatched fields, indexed and unindexed fields",
     "Tests check single conditions; the paths diverge on nested trees, empty sets, mixed types and partially indexed filters.",
     ["include/utils/metadata_filter.hpp", "include/utils/metadata_filter_matcher.hpp", "include/storage/rocksdb_storage.hpp", "python/src/alayalite/collection.py"],
     [("evaluation", "include/utils/metadata_filter.hpp"), ("index plan", "include/utils/metadata_filter_matcher.hpp"), ("secondary indexes", "include/storage/rocksdb_storage.hpp")], ["matching id sets"],
     tech="property-based testing: differential between evaluation paths and a reference evaluator", note="Random filter trees and records.")
prop("P09", "Metadata store keeps every record and index consistent across history and reopen",
     "After any sequence of inserts, updates, deletes and batches, the metadata store returns for each id exactly the record last written, finds ids by item key, and its secondary indexes return exactly the ids whose current record matches, also after reopening or checkpointing. Serialising any record and reading it back yields the same record, and index keys sort exactly as the values they encode.",
     ["histories", "inputs"], "all operation histories, field types, values (extremes, embedded zero bytes, empty strings, negative numbers)",
     "Tests write a few well-behaved rows; stale index entries and key-order errors show only on updates and unusual values.",
     ["include/storage/rocksdb_storage.hpp", "include/utils/scalar_data.hpp", "include/utils/index_encoding.hpp"],
     [("record and index writes in one batch", "include/storage/rocksdb_storage.hpp"), ("order-preserving encoding", "include/utils/index_encoding.hpp"), ("record serialisation", "include/utils/scalar_data.hpp")], ["reads, index scans"],
     tech="stateful model-based testing; round-trip and order properties", note="Random histories against a map model, reopening at random points.")
prop("P10", "Write-ahead log and snapshots lose no committed operation at any crash point",
     "Whatever byte prefix of the log reaches disk, and however the record after it is torn, overwritten or its framing damaged, replay returns exactly the committed operations of the intact prefix, once, in order, with unchanged payloads, and never an uncommitted one. An operation acknowledged as committed survives a process kill or power loss at any later file operation, work logged after recovering from a torn tail is not lost, operation ids never repeat, and snapshot selection always yields the newest published snapshot, or the previous one if publishing was interrupted.",
     ["crash_points", "histories"], "all operation histories, truncation points, framing damage, stop points and failing file calls, repeated crash/recover cycles, snapshot rotations",
     "Tests truncate one file at one point; a crash may fall on any byte and recovery may crash again.",
     ["include/recovery/write_ahead_log.hpp", "include/recovery/recovery_manager.hpp", "include/recovery/snapshot_manifest.hpp"],
     [("framed prepare/commit records", "include/recovery/write_ahead_log.hpp"), ("snapshot dir + CURRENT", "include/recovery/recovery_manager.hpp")], ["replayed operations", "selected snapshot"],
     tech="stateful fault injection: model log, every-byte truncation and corruption", note="Each history is cut at sampled or all byte offsets and replayed; processes are stopped, and calls failed, at generated file operations through interposed libc calls.")
prop("P11", "A saved or durable collection reopens to exactly its acknowledged contents",
     "After any history of add, upsert, delete and checkpoint calls on a durable index or collection, closing or abruptly killing the process and reopening yields exactly the acknowledged contents: same ids, documents, metadata and vectors, and searches find them. An interrupted call is either wholly present or wholly absent.",
     ["histories", "crash_points"], "all histories, process kill points and reopen cycles",
     "Tests reopen after one clean save; kill points and replays over existing state are not covered.",
     ["python/include/index.hpp", "include/recovery/recovery_manager.hpp", "python/src/alayalite/collection.py", "python/src/alayalite/index.py"],
     [("WAL + snapshot", "python/include/index.hpp")], ["reopened contents"],
     tech="stateful model-based testing with process-kill injection", note="Random histories on the real extension module, killed at random points.")
prop("P12", "A disk collection answers like a brute-force model over its whole history",
     "After any sequence of batch adds, flushes, rejected calls, closes and reopens, a flat disk collection's searches return precisely the k nearest flushed labels with their true distances in (distance, label) order, a graph collection's return distinct flushed labels with true distances in that order, batch search agrees with single search for every thread count, and size counts exactly the flushed vectors. A rejected call (bad input, duplicate label, over limit) changes nothing and stays retryable.",
     ["histories", "configurations"], "all call histories, metrics, dims, segment counts, k, thread counts",
     "Tests run short fixed scripts with one or two segments; merging across segments, ties and error recovery need histories.",
     ["include/index/disk/disk_collection.hpp", "include/index/disk/disk_flat_builder.hpp", "include/index/disk/disk_flat_searcher.hpp", "include/index/disk/vamana_segment_builder.hpp", "include/index/disk/vamana_segment_searcher.hpp"],
     [("pending buffer, flush, segment merge", "include/index/disk/disk_collection.hpp")], ["search/batch_search/size results"],
     tech="stateful model-based testing against brute force", note="Random histories, flat and graph segments, compared after every operation.")
prop("P13", "A disk collection survives any crash during flush and has a single owner",
     "If the process dies, or power fails, at any file operation of a flush, reopening succeeds and shows either all or none of that flush's vectors, with everything flushed before intact, and later flushes work; an interrupted creation opens as an empty collection or refuses to open. A flush whose file operation fails throws, changes nothing, and succeeds when retried. While one handle has the collection open for writing, every other open is refused, and the lock is always released when the owner ends.",
     ["crash_points", "schedules", "fault_sequences"], "all kill points and failing file operations inside create/flush, concurrent opens",
     "Tests never interrupt a flush; each system call is a crash point.",
     ["include/index/disk/disk_collection.hpp", "include/index/disk/segment_manifest.hpp", "include/utils/platform_fs.hpp"],
     [("build segment, then atomically replace manifest", "include/index/disk/disk_collection.hpp"), ("advisory file lock", "include/utils/platform_fs.hpp")], ["reopened contents", "open errors"],
     tech="fault injection: kill/fail at the n-th file system call, enumerated; model of acknowledged state", note="All crash points of generated histories are enumerated through an interposed libc.")
prop("P14", "Damaged or foreign files are rejected, never misread",
     "Whatever bytes are changed, cut or added in a collection or segment manifest, a segment file or an on-disk graph file, opening it either fails with an error or yields a collection that answers from exactly the bytes stored; it never crashes, reads out of bounds, escapes the collection directory, or hangs. Manifest text written by the system always parses back to the same values.",
     ["inputs", "fault_sequences"], "all mutations of the persisted files; all manifest values",
     "Tests try a few hand-made corruptions; parsers must hold for every input.",
     ["include/index/disk/segment_manifest.hpp", "include/index/disk/segment_factory.hpp", "include/index/disk/disk_collection.hpp", "include/index/graph/vamana/vamana_reader.hpp", "include/storage/mmap_file.hpp"],
     [("manifest parser", "include/index/disk/segment_manifest.hpp"), ("size checks on open", "include/index/disk/*_searcher.hpp")], ["exceptions vs. opened objects"],
     tech="structure-aware mutation fuzzing under ASan, round-trip properties", note="Mutational exploration, memory errors detected by ASan.")
prop("P15", "Vamana graphs are well-formed, navigable and identical after a write/read trip",
     "For every data set and parameters, the built graph has a valid entry point, no self-loops, no duplicate or out-of-range neighbours and no list above the degree limit; pruning keeps the nearest candidate and obeys its distance rule; a single-threaded build is reproducible; every node of a graph with two or more points has an outgoing link, sharded or not, and on ordinary data nearly every point can be found. A sharded build puts each point in its nearest shards, and the merged neighbours of a node come from its shards. Writing and reading the graph returns the identical graph, damaged graph files are refused, and greedy search over a graph returns ordered, distinct, correctly scored results.",
     ["inputs", "configurations"], "all data sets (duplicates, few points), degree/width/alpha parameters, shard counts, threads",
     "Tests look at one random data set; invariants must hold for degenerate data and every parameter.",
     ["include/index/graph/vamana/vamana_builder.hpp", "include/index/graph/vamana/robust_prune.hpp", "include/index/graph/vamana/vamana_writer.hpp", "include/index/graph/vamana/vamana_reader.hpp", "include/index/graph/vamana/kmeans_partition.hpp", "include/index/graph/vamana/shard_merger.hpp", "include/index/graph/vamana/vamana_greedy_search.hpp"],
     [("robust prune", "include/index/graph/vamana/robust_prune.hpp"), ("sharded build", "include/index/graph/vamana/build_dispatch.hpp")], ["graph file contents", "search results"],
     tech="property-based testing: structural invariants, reference prune, round trip", note="Random exploration of data sets and parameters.")
prop("P16", "An on-disk graph index stays correct over inserts, deletes, merges and reopen",
     "After any sequence of builds, inserts, deletes, updates, flushes, compactions and reopens, a disk graph index never returns a deleted vector, returns every label at most once with its right distance, and keeps labels attached to the vectors they were given with. A search wide enough for the whole index returns exactly the nearest of the vectors the graph still reaches; while nodes have room for links, vectors inserted one at a time are all reached. Batched, pipelined and cached searches agree with plain ones, a flush makes the state durable, and a failed read or build is reported and leaves the index usable.",
     ["histories"], "all update histories, page layouts, cache and quantization settings",
     "The project's own tests for it do not run in this environment, and they use fixed scripts.",
     ["include/index/graph/diskann/diskann_index.hpp", "include/index/graph/diskann/beam_search.hpp", "include/index/graph/diskann/disk_page_io.hpp"],
     [("in-place update with slot reuse", "include/index/graph/diskann/diskann_index.hpp")], ["search results", "reopened state"],
     tech="stateful model-based testing against brute force", note="Random histories on small indexes with exhaustive search width. Reopening is claimed after flush() only, and heavy deletion without room for links may strand a few vectors (the graph is approximate by design).")
prop("P17", "Disk index building blocks persist and behave exactly like their models",
     "Page layouts, product-quantization tables, deletion bitmaps, slot allocators, node and page caches and visited sets behave, for every sequence of operations, exactly like plain in-memory models, and what they save is what they load. Distances from product-quantization tables equal the sums over the chosen centroids, and damaged files are refused.",
     ["histories", "inputs"], "all operation sequences, sizes and parameters of each component",
     "Tests exercise each component with a few fixed calls.",
     ["include/index/graph/diskann/disk_layout.hpp", "include/index/graph/diskann/pq_table.hpp", "include/index/graph/diskann/tombstone_bitmap.hpp", "include/index/graph/diskann/slot_allocator.hpp", "include/index/graph/diskann/node_cache.hpp", "include/index/graph/diskann/disk_page_cache.hpp", "include/index/graph/diskann/visited_bitset.hpp"],
     [("each component", "include/index/graph/diskann/*.hpp")], ["component APIs", "saved files"],
     tech="stateful model-based testing, round trips, long-double oracle for PQ", note="Random operation sequences per component.")
prop("P18", "Every file-reading and mapping path delivers exactly the bytes on disk",
     "For every set of requests (offsets, lengths, alignments, batch sizes, queue depths and threads), each asynchronous, threaded and memory-mapped reader delivers exactly the bytes the file holds, completes every request once, and reports reads that cannot be satisfied as errors instead of returning other bytes. Binary and file-format helpers round-trip every value.",
     ["inputs", "schedules"], "all request batches, file sizes and thread schedules",
     "Tests read a few aligned pages; short reads, queue overflow and request reordering depend on batch shape.",
     ["include/storage/io", "include/storage/mmap_file.hpp", "include/index/graph/laser/utils/threadpool_file_reader.hpp", "include/index/graph/laser/utils/aligned_file_reader.hpp", "include/utils/io_utils.hpp", "include/utils/binary_io.hpp"],
     [("io engines", "include/storage/io/io_uring_engine.hpp"), ("file readers", "include/index/graph/laser/utils/*reader.hpp")], ["buffers after completion"],
     tech="property-based testing: differential against pread on generated request batches", note="Random request batches and files.")
prop("P19", "LASER segments import faithfully and search with ordered, valid results",
     "Importing a LASER index into a disk collection either fails leaving the collection unchanged or yields a segment whose searches equal the source's, with ids mapped to the given labels. LASER searches return distinct valid ids in ascending order, independent of thread count and batch split, and saved transforms and rotations reload to the same mapping.",
     ["inputs", "configurations", "fault_sequences"], "all index shapes, parameters, label maps and file damage",
     "Tests import one fixture.",
     ["include/index/disk/laser_segment_importer.hpp", "include/index/disk/laser_segment_searcher.hpp", "include/index/graph/laser"],
     [("importer staging and validation", "include/index/disk/laser_segment_importer.hpp")], ["search results", "collection state"],
     tech="property-based testing: differential and fault injection", note="Random small indexes.")
prop("P20", "Concurrency primitives: every task runs once, locks exclude, no lost wake-ups",
     "Under every schedule, each task submitted to a thread pool, scheduler or worker runs exactly once and its completion is reported, waiting returns only when all earlier work is done, and shutdown neither loses accepted work nor hangs. Locks admit one writer or many readers, and shared queues deliver each element exactly once in order.",
     ["schedules"], "all thread interleavings, pool sizes, submission patterns, nested submissions",
     "Tests run one interleaving; races need many schedules.",
     ["include/utils/thread_pool.hpp", "include/executor/scheduler.hpp", "include/executor/worker.hpp", "include/utils/locks.hpp", "include/index/graph/laser/utils/concurrent_queue.hpp", "include/utils/coro_gate.hpp"],
     [("pool queue", "include/utils/thread_pool.hpp"), ("locks", "include/utils/locks.hpp")], ["execution counts", "observed exclusion"],
     tech="property-based concurrent testing with generated schedules, TSan build", note="Random schedules with injected delays; TSan reports data races on the explored ones.")
prop("P21", "Candidate pools and visited sets behave exactly like sorted and plain sets",
     "For every sequence of inserts, pops and lookups, a search candidate pool holds exactly the best candidates seen up to its capacity in ascending order, hands out each unexpanded candidate nearest first and only once, and a visited set reports exactly the ids that were marked since its last reset.",
     ["histories", "inputs"], "all operation sequences, capacities, ties and resets",
     "Tests insert a few values; ties, full pools and cursor rewinds need sequences.",
     ["include/utils/query_utils.hpp", "include/utils/rabitq_utils/search_utils/buffer.hpp", "include/utils/rabitq_utils/search_utils/hashset.hpp", "include/index/graph/laser/utils/buffer.hpp", "include/third_party/ngt/hashset.hpp", "include/index/graph/hnsw/visited_list_pool.hpp", "include/index/graph/diskann/search_scratch.hpp"],
     [("LinearPool and buffers", "include/utils/query_utils.hpp")], ["pool contents", "pop order"],
     tech="stateful model-based testing against std::set/multiset models", note="Random operation sequences.")
prop("P22", "Python collections behave like a keyed document store over any call history",
     "After any sequence of inserts, upserts, deletes, filtered deletes and queries through the Python client, a collection returns exactly the live documents with their latest text, metadata and vectors, query results are ordered, live and match the filter, and client-level listing, saving, deleting and reopening of collections reflects exactly the calls made. Invalid calls raise and change nothing; a batch stops at its first invalid item, which changes nothing.",
     ["histories", "programs"], "all API call histories, id and metadata values, filters, client reopen points",
     "Python tests run fixed scenarios.",
     ["python/src/alayalite/client.py", "python/src/alayalite/collection.py", "python/src/alayalite/index.py", "python/src/alayalite/schema.py", "python/include/index.hpp"],
     [("id mapping", "python/src/alayalite/collection.py")], ["get/query results"],
     tech="stateful model-based testing of the real Python package", note="Random API histories with a dictionary model.")
prop("P23", "LASER build steps are resumable and numerically faithful",
     "Repeating an interrupted or finished LASER build step with the same inputs reuses only outputs that belong to those inputs (shape, seed and settings) and otherwise rebuilds them, so that the resulting files equal those of a fresh build; a half-written file of an interrupted run is never taken for a finished one. Vector files round-trip every array, the learned rotation preserves distances, and chosen medoids are the true nearest points to the centres.",
     ["inputs", "crash_points"], "all arrays, parameters, interruption points",
     "Tests check one happy path.",
     ["python/src/alayalite/laser"],
     [("idempotence and IO helpers", "python/src/alayalite/laser/*.py")], ["files and arrays"],
     tech="property-based testing with kill injection at random lines", note="Random arrays, settings, histories and interruption points.")
prop("P24", "Evaluation and data set utilities compute exactly what they are defined to",
     "Recall computed by any utility equals the fraction of the returned top-k ids that occur in the query's ground-truth row; exact ground truth equals brute force, in order, never naming a deleted or non-existent row; a data set loads as its files describe it, also when it is cut to a maximum size; vector normalisation yields unit vectors; vector file loaders return what writers wrote; and arithmetic, random, thread-limit and allocation helpers satisfy their definitions for every argument.",
     ["inputs"], "all result/ground-truth arrays, files, arguments",
     "Tests use a few arrays; ties, short rows, padding ids and extremes are not covered.",
     ["include/utils/evaluate.hpp", "include/utils/dataset_utils.hpp", "include/utils/io_utils.hpp", "include/utils/math.hpp", "include/utils/data_utils.hpp", "include/utils/random.hpp", "include/utils/thread_config.hpp", "include/utils/memory.hpp", "include/index/graph/laser/utils/tools.hpp", "include/index/graph/laser/utils/io.hpp", "python/src/alayalite/utils.py", "python/src/alayalite/bench/_datasets.py"],
     [("recall and ground truth", "include/utils/evaluate.hpp")], ["return values"],
     tech="property-based testing against direct definitions", note="Random exploration.")
prop("P25", "Text chunkers cover the document and respect their size limits",
     "For every text and settings, the chunks produced by a text splitter contain all of the document's content in order, none exceeds the configured size where splitting is possible, neighbouring chunks overlap as configured, and settings that cannot make progress are refused. Semantic chunks end exactly where the similarity of neighbouring windows falls below the threshold.",
     ["inputs"], "all texts, sizes, overlaps, separators",
     "Example code has no systematic tests.",
     ["python/src/alayalite/rag/chunker"], [("chunkers", "python/src/alayalite/rag/chunker/*.py")], ["chunk lists"],
     tech="property-based testing", note="Random exploration.")

NA = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
         "notes": "run.py is the single driver; checks.py lists the harnesses of each property; the harness engine is harness/pbt.hpp."}
    for p, tech, note in P:
        pid = p["id"]
        if pid in checks.CHECKS:
            m["checks"].append({"property": pid, "quick_cmd": f"python3 run.py {pid} --tier quick",
                                "thorough_cmd": f"python3 run.py {pid} --tier thorough",
                                "technique": tech, "level": checks.CHECKS[pid]["level"], "level_note": note})
        else:
            m["not_applicable"].append({"property": pid, "reason": NA.get(pid, "no check built for it yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
