#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json
P = []
def p(id, title, st, over, q, why, files, mech, state=None):
    a = dict(files=files, mechanism=[dict(name=m.strip(), where=files[0]) for m in mech.split(";")])
    if state: a["state"] = [dict(name=s.strip(), meaning="state the property ranges over") for s in state.split(",")]
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))
I = "include/svs/"
p("S01", "Search buffer keeps the best candidates, sorted, unique, and knows when to stop",
  "After any sequence of candidate insertions and expansions, a search buffer of fixed capacity holds, sorted by distance and without duplicate ids, the best candidates offered so far and never more than its capacity; each expansion yields the best candidate not yet expanded inside the search window, and the search is reported finished exactly when none remains. Resizing, clearing or copying the buffer keeps it bounded, empty where promised, and memory-safe.",
  ["inputs", "histories"], "every history of insertions (any ids, any distances, ties included), expansions, seedings, resizes and clears",
  "The order of insertions, ties, duplicates and expansions is combinatorial; tests replay a few recorded sequences.",
  [I+"index/vamana/search_buffer.h"], "binary search insertion with duplicate scan, one-past-the-end spill slot, best-unvisited cursor", "sorted candidate array, size, cursor, window")
p("S02", "Mutable-index search buffer returns the best live candidates despite deletions",
  "With deleted and live candidates mixed in any order, the search buffer of the mutable index keeps the best live candidates up to its capacity plus every deleted candidate that could still lead to better ones, ordered and without duplicates, and finishes exactly when no unexpanded candidate remains before the window's last live one. Final cleanup leaves precisely the live candidates in order.",
  ["inputs", "histories"], "every history of live/deleted insertions and expansions with any distances, window and capacity",
  "Its bookkeeping distinguishes many cases by where and in which state an entry lands; tests cover a handful of orders.",
  [I+"index/vamana/dynamic_search_buffer.h"], "region-of-interest end, valid count and shrink rules maintained on each insertion", "candidate vector, valid count, region end, cursor")
p("S03", "Visited filter never reports an id that was not entered",
  "The visited filter may forget ids but never claims that an id has been visited when it was not entered since the last reset, whichever ids are used; an id entered last into its slot is still recognised, and resetting or disabling the filter forgets everything.",
  ["inputs", "histories"], "all 32-bit ids and every short history of entering, querying and resetting",
  "The claim ranges over all 2^32 ids including patterns that collide with the empty-slot marker.",
  [I+"index/vamana/filter.h"], "low-bit slot index with stored upper bits and an empty-slot marker", "slot table")
p("S04", "Neighbor ordering and integer helpers are exact",
  "Neighbor comparison with tie-breaking is a strict total order for every pair of ids and distances, best-possible sentinels compare worse than any real candidate, merging two sorted candidate lists yields the best of their union in order, and integer helpers (checked narrowing, rounding division, power-of-two arithmetic, index ranges) return exact results or refuse.",
  ["inputs"], "all ids, distances and integer values",
  "Boundary values and sign/width combinations are too many to enumerate.",
  [I+"lib/neighbor.h", I+"lib/misc.h", I+"lib/narrow.h", I+"lib/algorithms.h", I+"lib/type_traits.h"], "comparators, sentinels, narrow, div_round_up, bounded_merge")
p("S05", "Graph search returns the true best of what it reached and never leaves the graph",
  "On any graph, greedy search terminates, computes every reported distance with the query itself, returns distinct ids that exist, ordered best first, starting from the entry points, and on a graph it can fully explore with a large enough window it returns the exact nearest neighbors. Using the visited filter or prefetching changes no result.",
  ["inputs"], "all small directed graphs, entry points, distances and window sizes",
  "Result depends on graph shape, ties and window; tests measure average recall on one dataset (absent here).",
  [I+"index/vamana/greedy_search.h", I+"index/vamana/extensions.h", I+"index/vamana/index.h"], "best-first expansion over the search buffer")
p("G01", "Graph storage keeps bounded, duplicate-free adjacency lists",
  "Whatever sequence of edge additions, replacements and clears is applied, each node's adjacency list holds exactly the edges that were accepted, without duplicates, never more than the maximum degree, and operations on one node never disturb another; resizing and compaction preserve the lists of retained nodes.",
  ["inputs", "histories"], "every short history of graph operations on any node and neighbor ids",
  "Overflow of a fixed-width row corrupts a neighbor's row only for particular fill levels.",
  [I+"core/graph/graph.h"], "length-prefixed fixed-stride rows", "adjacency matrix rows")
p("G02", "Neighbor pruning is bounded, sound and never returns stale or duplicate edges",
  "Pruning any candidate pool yields at most the requested number of distinct edges, all taken from the pool, never the node itself, always including the nearest candidate, each justified by the relaxation rule, with nothing left over from a previous call.",
  ["inputs"], "every pool of candidates with any distances, every relaxation factor and limit",
  "The pruning outcome depends on all pairwise distances and ties.",
  [I+"index/vamana/prune.h"], "iterative and progressive occlusion rules", "result vector reused across calls")
p("G03", "Graph construction produces a well-formed bounded graph",
  "Building or extending the graph over any dataset leaves every node with at most the maximum number of out-edges, all of them to existing other nodes without duplicates, with no cross-thread interference on adjacency lists, for any thread count and any interleaving.",
  ["inputs", "schedules"], "every small dataset, parameter setting and interleaving of the worker threads",
  "Interleavings of back-edge insertion cannot be forced by tests; degree overflow needs particular inputs.",
  [I+"index/vamana/vamana_build.h"], "two-phase batch update with per-node locks and overflow pruning")
p("G04", "Consolidation removes every edge to deleted nodes and keeps the graph sound",
  "After consolidating a graph with any set of deleted nodes, no surviving node points to a deleted one, every list stays within the degree bound without self edges or duplicates, and surviving nodes not adjacent to deleted ones keep their lists.",
  ["inputs"], "every small graph, deletion set and distance assignment",
  "Depends on deletion chains and pruning fallbacks that sampling rarely meets.",
  [I+"index/vamana/consolidate.h"], "replace deleted neighbors by their neighbors and prune")
p("D01", "External-to-internal id translation stays a bijection",
  "After any sequence of insertions, deletions and remappings, external and internal ids remain in one-to-one correspondence, exactly the inserted-and-not-deleted ids are known, and rejected operations (duplicates, unknown ids) change nothing.",
  ["inputs", "histories"], "every short history of translation-table operations with any ids",
  "Requires arbitrary ids and histories including rejected operations.",
  [I+"core/translation.h"], "paired hash maps updated together", "two maps")
p("D02", "Mutable index preserves the vector behind each external id",
  "Through any history of additions, deletions, consolidations and compactions of a mutable index, each live external id maps to the vector it was added with, deleted ids are never returned or resolvable, sizes and id sets agree with the history, and invalid requests are refused without changing the index.",
  ["inputs", "histories"], "every short history of mutations with any ids and vectors",
  "Slot reuse after deletions and compaction depends on the history.",
  [I+"index/vamana/dynamic_index.h", I+"index/flat/flat.h"], "slot status array, id translation, slot reuse, compaction", "slot status, translator, data, graph")
p("V01", "Vector storage returns what was stored and rejects out-of-range use",
  "Storing a vector and reading it back returns the same values for every in-range index in flat, blocked and view storage; growing, shrinking and compacting keep the retained vectors; shapes that do not match are refused and no access leaves the storage.",
  ["inputs", "histories"], "every size, index, value and resize history within bounds",
  "Off-by-one at block boundaries appears only at particular sizes.",
  [I+"core/data/simple.h", I+"lib/array.h", I+"core/data/view.h", I+"core/allocator.h", I+"core/compact.h"], "dense array indexing, blocked indexing, in-place compaction")
p("V02", "Distances are exact, symmetric and memory-safe for every length and type",
  "For every vector length and supported element type combination the computed squared-Euclidean, inner-product and cosine values equal the mathematical definition (up to summation order), do not depend on which specialised kernel is chosen, and read nothing beyond the vectors.",
  ["inputs", "configurations"], "all element values in the exactly representable range, all lengths within bounds, all type pairs, generic and specialised kernels",
  "Tail handling in each kernel differs per length and type; tests sample random vectors of few lengths.",
  [I+"core/distance/euclidean.h", I+"core/distance/inner_product.h", I+"core/distance/cosine.h", I+"core/distance/simd_utils.h"], "SIMD kernels with masked or scalar epilogues")
p("V03", "Half-precision conversion is correct for every value",
  "Converting any half-precision value to single precision is exact, converting back returns the same value, and converting any single-precision value yields the correctly rounded half-precision value.",
  ["inputs"], "all 2^16 half and all 2^32 single precision bit patterns",
  "Rounding boundaries and subnormals are not reached by a few samples.",
  [I+"lib/float16.h"], "bit manipulation conversion or hardware conversion")
p("V04", "Exhaustive search returns exactly the k nearest vectors",
  "For any data, queries, batch sizes and thread partition, exhaustive search returns for every query the k nearest stored vectors, best first, with true distances and correct ids.",
  ["inputs", "configurations"], "all small datasets, queries, k and batch sizes",
  "Batch boundaries and ties are not varied by tests.",
  [I+"index/flat/flat.h", I+"index/flat/inserters.h"], "per-query bounded insertion sort over data batches")
p("V05", "Recall and entry-point computation follow their definitions",
  "Recall equals the fraction of true neighbors found for every result and ground-truth table, mismatched shapes are refused, and the computed entry point is the stored vector nearest to the mean.",
  ["inputs"], "all small tables and datasets", "Definition-level claims over all inputs including duplicates and boundary shapes.",
  [I+"core/recall.h", I+"core/medioid.h"], "set intersection counting; parallel mean and arg-min")
p("K01", "Clustering bookkeeping never loses or duplicates a vector",
  "Clusters report exactly the ids and distances put into them, size statistics agree with the contents, assignment places every vector with a nearest centroid, limiting cluster sizes never drops the last copy of a vector, and initial centroids are distinct stored vectors.",
  ["inputs", "histories", "schedules"], "all small clusterings, assignments, size limits and random choices",
  "Depends on the interplay of replicas and limits.",
  [I+"index/inverted/clustering.h", I+"core/kmeans.h", I+"index/inverted/memory_based.h"], "per-cluster buckets with replicas and distances")
p("K02", "Inverted search returns the best vectors of the clusters it must visit",
  "A search of the inverted index visits the cluster of the nearest centroid and of every centroid found within the requested tolerance of it, and returns, best first and without duplicates, the best of all their members and centroids with true distances and ids; the parameters given for a search are the ones used, and missing results are marked as such.",
  ["inputs", "configurations"], "all small clusterings with replicas, distances (ties, zero and negative values included), tolerances, windows and result counts, sparse and dense storage",
  "Zero or negative distances, ties on the bound and too few candidates are not met by the recorded dataset.",
  [I+"index/inverted/memory_based.h", I+"index/inverted/common.h"], "primary search over centroids, bounded scan of cluster members")
p("T01", "Static work partitioning covers every item exactly once",
  "Dividing any number of items among any number of threads gives each item to exactly one thread, in contiguous in-range ranges whose sizes differ by at most one.",
  ["inputs"], "all item and thread counts", "Arithmetic boundary cases for all counts.",
  [I+"lib/threads/types.h", I+"lib/threads/thunks.h"], "balance arithmetic, unit ranges and range splitting")
p("T02", "Parallel loops process every item exactly once under every schedule",
  "Under every interleaving of worker threads, a parallel loop with static or dynamic partitioning runs each item exactly once, returns only after all work is complete and visible, and can be repeated on the same pool; two callers sharing a pool each get their own loop run completely.",
  ["schedules", "inputs"], "every interleaving within a preemption bound of up to three threads and small loop sizes",
  "Schedules cannot be enumerated by running tests.",
  [I+"lib/threads/thread.h", I+"lib/threads/threadpool.h", I+"lib/threads/thunks.h", I+"lib/threads/types.h"], "work submission handshake per worker thread and shared atomic counter")
p("T03", "Worker-thread handshake loses no work and always shuts down",
  "For every interleaving a worker thread runs each submitted job exactly once, waiting for completion returns only afterwards, destruction or shutdown terminates without hanging, and no data race occurs on the handshake.",
  ["schedules"], "every interleaving of controller and worker within a preemption bound",
  "Lost wake-ups occur only in particular interleavings.",
  [I+"lib/threads/thread.h"], "atomic state word with spinning, sleeping and condition variable", "thread state word")
p("T04", "A failing task reports its error and leaves the pool usable",
  "When a task throws on any worker, the caller receives an error mentioning it after all workers have stopped running the job, no worker is lost, and the same pool completes the next job; another caller sharing the pool is not affected.",
  ["schedules", "fault_sequences"], "any subset of workers throwing any exception type, any interleaving within the bound",
  "Fault placement times interleavings is not sampled by tests.",
  [I+"lib/threads/threadpool.h", I+"lib/threads/thread.h"], "exception capture, restart of failed threads")
p("T05", "Locks give mutual exclusion and shared values are never torn",
  "The spin lock admits one holder at a time under every interleaving and releases visibly; reader/writer protected values are read and updated atomically, and assignments return the object they assign to.",
  ["schedules"], "every interleaving of up to three threads within a preemption bound",
  "Mutual exclusion failures appear in few interleavings.",
  [I+"lib/spinlock.h", I+"lib/concurrency/readwrite_protected.h"], "atomic exchange with acquire/release; shared mutex")
p("P01", "Textual identifiers round-trip and malformed text is rejected safely",
  "Formatting and re-parsing a unique id, version or element-type name returns the same value for every value, distinct values have distinct texts, and arbitrary malformed text is either rejected or parsed without reading outside it.",
  ["inputs"], "every value, and every text up to a bounded length",
  "All byte strings near the valid format cannot be sampled.",
  [I+"lib/uuid.h", I+"lib/version.h", I+"lib/datatype.h"], "hex group parsing, dotted triple parsing, name table")
p("P02", "Vector files round-trip and damaged files are detected",
  "A dataset written in any supported file format reads back identical in shape and content, and files that are truncated, have inconsistent headers or the wrong element size are rejected or read within bounds instead of yielding garbage.",
  ["inputs", "fault_sequences"], "every header field value, file length and content within bounds",
  "Header corruption space is huge; tests only read well-formed files.",
  [I+"core/io/native.h", I+"core/io/vecs.h", I+"core/io/binary.h", I+"lib/readwrite.h", I+"lib/file_iterator.h"], "fixed headers, stream reads, header-derived sizes")
p("P03", "Saved parameters load back unchanged and incompatible ones are refused",
  "Saving any index, search or build parameter set and loading it returns an equal set, and tables with a wrong schema, unsupported version or missing or mistyped fields are refused.",
  ["inputs"], "all parameter values, schema names and versions", "Field mix-ups only show for particular values.",
  [I+"index/vamana/index.h", I+"index/vamana/build_params.h", I+"index/vamana/search_params.h", I+"lib/saveload/load.h", I+"lib/saveload/save.h", I+"lib/saveload/core.h"], "typed tables with schema and version checks")
p("P04", "A saved index reloads to one that behaves identically",
  "Saving an index (static or mutable, after any history of additions and deletions, also over an earlier save) and assembling it again yields the same ids, vectors, graph degree, build and search parameters and identical search results, and the reloaded index can be modified further; assembling pieces that belong to indexes of different size, or with a piece missing, is refused.",
  ["inputs", "histories"], "every short history before saving, all vector contents, graphs of three nodes, entry points and parameter values",
  "Slot order, ids and parameters only disagree for particular histories and parameter values.",
  [I+"index/vamana/dynamic_index.h", I+"index/vamana/index.h", I+"core/translation.h", I+"core/graph/graph.h", I+"orchestrators/vamana.h", I+"orchestrators/dynamic_vamana.h"], "consolidate and compact, then save parameters with translation, data and graph; reload checks sizes against each other")
p("A01", "Calibration meets the target recall when possible and keeps the fastest setting",
  "Calibrating the search parameters returns a setting that reaches the target recall whenever a setting within the allowed window sizes does (the smallest such window), and otherwise the one with the best recall there is; of the split-buffer and prefetch settings it measured it returns the fastest, it never tries a buffer too small for the neighbors asked for, and it changes nothing it was not asked to optimize.",
  ["inputs", "configurations"], "every recall that grows with window and capacity, every target, every search time, mode and bound",
  "Which setting wins depends on the whole table of recalls and times; a test sees one dataset and one machine.",
  [I+"index/vamana/calibrate.h"], "binary search over window and capacity, then refinement over prefetch lookaheads, driven by measured recall and time", "search parameters, best time so far, recall reached")
p("C01", "Method dispatch selects the best valid target, deterministically",
  "For every set of registered targets and every argument combination, dispatch invokes the valid target with the lexicographically best match (the earliest on ties) and reports an error when none is valid.",
  ["inputs", "configurations"], "all match scores for a bounded number of targets and arguments", "Combination of scores across arguments is not enumerated by tests.",
  [I+"lib/dispatcher.h"], "per-argument match scores compared lexicographically")
if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
