"""Bounds of every check and what lies outside them (printed into MANIFEST.json and the evidence)."""
_SCHED = "Schedules are enumerated by forking at every visible operation up to the stated number of preemptions (sequentially consistent interleavings, with a happens-before race detector for weaker ones); the solver decides the data on each."
B = {
 "S01": ("capacity 1..2, window 1..capacity, any 32-bit ids and any distance of the 16 values -8..7 (ties included), every history of 4 insertions/expansions; seeding with up to 3 entry points; resize 1..3 to 1..3; from any sorted buffer of 5 candidates (capacity 5 or 6) one insertion of any candidate",
         "capacity 1..3, 6 steps", "longer histories, larger capacities, NaN distances"),
 "S02": ("capacity 1..2, window 1..capacity, any ids, live or deleted, distances -8..7, every history of 4 operations; seeding, resizing; from any reachable buffer of 3 candidates one insertion",
         "capacity 1..3, 6 steps; prefilled with 4", "longer histories; NaN distances"),
 "S03": ("all 2^32 ids; three entered ids and one query; slot counts 2^2, 2^16 and 2^17", "same", "longer histories (a slot only remembers the last id, so three suffice for each slot)"),
 "S04": ("all ids and distances for the orderings; merging two sorted lists of up to 2; narrow over eleven type pairs, every value; div_round_up with divisor 1..64 and any or 12-bit dividend; prevpow2 around every power of two; ranges of any bounds", "merging lists of 3", "longer lists; division by large divisors"),
 "S05": ("every directed graph of 3 nodes (lists in every order), vectors from 4 values (2 for whole index), every window and capacity up to 3, one or two entry points, with and without filter and prefetching; two queries", "4 nodes (lists in ascending order)", "larger graphs; higher dimensions (distances are V02's matter)"),
 "G01": ("3 nodes, degree 2, any neighbor ids of 8, 32 and 64 bits, any starting lists, every history of 2 operations; flat, blocked and hugepage storage; resizing 0..5 and compacting any subset of 4 rows", "degree 3, 4 operations", "larger graphs"),
 "G02": ("pools of up to 3 candidates of any distance and any geometry from 8 values (3 values for the progressive rule), every limit 0..3, factors 1, 2, 0.75, stale result of two entries", "pools of 4", "other factors; larger pools"),
 "G03": ("3 nodes, any initial graph, every degree, window 1..2, pool 2 or 6, prune_to, history mode, vectors from 3 values; two workers over the reverse-edge phase with 4 preemptions and race detection", "4 nodes", "more than two workers; larger graphs. " + _SCHED),
 "G04": ("every graph of 4 nodes and degree 2, every deletion set, vectors from 2 or 3 values, prune_to 1..2, pool 1 or 4, batch sizes 1, 3 and unlimited, factors 1 and 2", "degree 3", "larger graphs"),
 "D01": ("ids from colliding values and extremes, every history of 2 operations of up to 2 ids each (accepted or refused) on tables of 0..2 entries; one operation with arbitrary ids", "3 operations", "longer histories; hash containers are explored by forking on the bucket"),
 "D02": ("2 to 4 vectors of a distance component and an arbitrary payload component, every history of 3 operations (adding, deleting, consolidating, compacting, refused requests) on ids 10..50; symbolic distance tables over 3 vectors; assembling from parts; reconstruction", "4 operations", "longer histories; the entry point depends on the first component only; payloads are decided by term equality before the solver is asked"),
 "V01": ("flat, blocked (tiny blocks) and hugepage storage of up to 3 vectors, every index and size, any stored value, every history of 2 operations; conversions over every value of the source type; views; compaction with 1 or 2 threads", "3 operations", "larger storage; memory-mapped files"),
 "V02": ("every length up to 100 (140 with AVX2 / AVX-512 kernels), ten type pairs, three distances, generic and specialised kernels, fixed and run-time lengths; any element of the integer-valued exact range; exactly sized objects (every byte read is checked)", "lengths up to 257", "values outside the exactly representable range (rounding of sums); lengths above the bound; kernels for other instruction sets"),
 "V03": ("all 2^16 half and all 2^32 single precision bit patterns, portable and F16C conversions", "same", "conversion from double goes through float (double rounding)"),
 "V04": ("up to 4 vectors and 2 queries, any finite distances below the largest float, every k, predicate, data and query batch size; 1 or 2 threads", "one more vector, result and query", "the largest finite float (marks missing results); NaN; larger datasets"),
 "V05": ("2 truth and 2 or 3 result columns, ids from three values at either end of the type, every k and n; medoids of up to 3 vectors with small coordinates and an exact mean", "ids of 5 values, 4 points", "coordinates whose mean is not exact; distances above the largest float"),
 "P01": ("any two bytes of an id (others arbitrary constants), any two neighboring characters of its text, any length 0..40; version texts of up to 10 characters; element-type texts of up to 8; version numbers up to 120 and the largest", "version texts of 14 characters, numbers up to 999", "longer texts"),
 "P02": ("any shape 0..2 x 0..2 with any content, every element type and file format through the real writers and readers on an in-memory file system; files cut at any byte; vecs and binary files of up to 16 arbitrary bytes; native files with an arbitrary header and shapes up to 2^20", "shapes 0..3, 24 arbitrary bytes", "write faults (a full disk goes unnoticed by the library); the text form of toml; memory-mapped loading; edges outside the graph in damaged graph files; binary headers with both fields above 2^20"),
 "P03": ("any parameter values up to 2^63-1, any finite factors; every single-character change, shortening and extension of a schema; every version with one-digit parts; every field missing, of each other type, or out of range", "same", "the text form of toml (tables are passed as values)"),
 "P04": ("mutable indexes of 3 vectors after every history of 1 operation, block sizes, any settings; static indexes over every graph of 3 nodes, any entry point, any vectors' payload and any settings; mixed and missing pieces; the type-erased orchestrators", "2 operations", "longer histories; the text form of toml; queries are a few values; payloads are decided by term equality"),
 "A01": ("windows and capacities up to 6 (5 for split buffers), 1 or 2 neighbors, four recall levels in every monotone arrangement, two or three time levels per setting, degrees 0, 1 and 3, up to three timed iterations with any time limit of 0 to 4 seconds", "degrees up to 8, three time levels for split buffers", "a recall that falls when the window or capacity grows (the library assumes it does not); capacity bounds below the window bound"),
 "C01": ("up to 3 targets, any 64-bit scores per argument, every registration order, 2 or 3 arguments by value, reference and rvalue; variants; extents; element types", "4 targets", "more targets"),
 "K01": ("clusterings of 3 clusters, every history of 3 operations, any ids and distances; 3 leaves and 2 centroids with symbolic distances and multipliers; size limits; k-means on 3 vectors with symbolic random numbers of 8-bit granularity; two threads with 3 preemptions", "4 steps, 4 leaves", "larger clusterings. " + _SCHED),
 "K02": ("2 centroids, up to 4 members with replicas, symbolic distances (ties, zero, negative), tolerances, windows and k; sparse and dense storage", "also over a real primary index (bounded by time)", "larger clusterings; a candidate exactly on the bound may be visited or not"),
 "T01": ("any number of items up to 40 and 2..7 threads (exact), any neighboring members for up to 40 items and 9 threads; sizes near 2^31, 2^32, 2^63 and 2^64; the thunk on up to 12 items and 6 threads and on 2^32 or 2^62 and more items", "up to 200 items and 12 threads", "larger counts"),
 "T02": ("2 threads, any number of items up to 3 and any grain up to 2^32, 3 preemptions; two callers sharing a pool, 2 preemptions; 3 threads, 1 preemption", "5, 3 and 2 preemptions; up to 3 threads", "more threads or preemptions. " + _SCHED),
 "T03": ("one worker, up to 2 jobs, spin counts 1..2, every way of ending, 3 preemptions", "3 jobs, 5 preemptions", "timed waits; " + _SCHED),
 "T04": ("2 threads and any subset of them failing with any of three kinds of exceptions, 2 preemptions; two callers sharing a pool; 3 threads, 1 preemption", "4, 3 and 2 preemptions", "more threads or preemptions; " + _SCHED),
 "T05": ("2 or 3 threads, 3 preemptions, any values", "5 preemptions", "more threads or preemptions; " + _SCHED),
}
