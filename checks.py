_P = ["f32_f32", "f32_i8", "f32_u8", "f32_f16", "f16_f32", "f16_f16", "i8_i8", "u8_u8", "i8_f32", "u8_f32"]
_Q = ["sum_f32_f32", "sum_f32_i8", "sum_f32_u8", "sum_f16_f16", "sum_u8_f32"]
def _small(flags): return dict(file="distance.cpp", entries=_Q, flags=flags + ["-DMAXLEN=40"], opts=["--no-poly"])
DIST = ["sum_" + p for p in _P] + ["fix_" + p for p in _P] + ["cos_" + p for p in ("f32_f32", "f32_i8", "f32_u8", "f32_f16", "f16_f16", "i8_i8", "u8_u8")]
CHECKS = {
 "S01": dict(
    units=[dict(file="search_buffer.cpp", entries=["static_less", "static_greater", "static_seed", "static_resize"],
                quick_flags=["-DSTEPS=4", "-DMAXCAP=2"], thorough_flags=["-DSTEPS=6", "-DMAXCAP=3"],
                reach={"static_less": ["end", "full", "expand"]}),
           dict(file="search_buffer.cpp", entries=["static_long", "static_long_greater"], reach={"static_long": ["end"]})],
    time=dict(quick=200, thorough=1500),
 ),
 "S02": dict(
    units=[dict(file="mutable_buffer.cpp", entries=["mutable_less_1", "mutable_less_21", "mutable_less_22", "mutable_greater", "mutable_inserts", "mutable_seed", "mutable_resize", "sizes_m"],
                quick_flags=["-DSTEPS=4", "-DMAXCAP=2"], thorough_flags=["-DSTEPS=6", "-DMAXCAP=3"],
                reach={"mutable_less_22": ["end", "full", "expand"]}),
           dict(file="mutable_buffer.cpp", entries=["mutable_long", "mutable_long_greater"], opts=["--ite-max=1"], quick_flags=["-DPREFILL=3"], thorough_flags=["-DPREFILL=4"], reach={"mutable_long": ["end"]})],
    time=dict(quick=200, thorough=1500),
 ),
 "S03": dict(
    units=[dict(file="filter.cpp", entries=["filter_2", "filter_16", "filter_17", "filter_static", "filter_dynamic"])],
    time=dict(quick=120, thorough=600),
 ),
 "S04": dict(
    units=[dict(file="helpers.cpp", entries=["order_less", "order_greater", "meta", "merge", "narrow", "integers", "mask", "percent", "intersect", "ranges", "range_at"], thorough_flags=["-DMERGE=3"])],
    time=dict(quick=200, thorough=1000)),
 "T01": dict(
    units=[dict(file="partition.cpp", entries=["balance_huge", "balance_huge_u32", "balance_small", "balance_u32", "balance_int", "balance_pair", "balance_edges", "thunk_static", "thunk_dynamic", "thunk_huge", "thunk_dynamic_huge"], thorough_flags=["-DMAXK=12", "-DMAXN=200", "-DPAIRN=120", "-DPAIRK=15"])],
    time=dict(quick=200, thorough=1000)),
 "G02": dict(
    units=[dict(file="prune.cpp", entries=["iterative_l2_1", "iterative_l2_2", "iterative_ip_1", "iterative_ip_075", "progressive_l2_1", "progressive_l2_2", "legacy_l2_2", "legacy_ip_1"], thorough_flags=["-DNPOOL=4"], reach={"iterative_l2_1": ["end", "empty", "full"]})],
    time=dict(quick=240, thorough=1500)),
 "G01": dict(
    units=[dict(file="graph.cpp", entries=["graph_u32", "graph_u8", "graph_u64", "graph_huge", "graph_blocked", "graph_resize", "graph_compact", "graph_equal", "graph_limits"], thorough_flags=["-DSTEPS=4", "-DDEG=3"], reach={"graph_u32": ["end", "refused", "added"]})],
    time=dict(quick=240, thorough=1500)),
 "S05": dict(
    units=[dict(file="search.cpp", entries=["greedy_small", "greedy_wide", "greedy_visited", "greedy_ip", "mutable_l2", "index_l2"], thorough_flags=["-DNN=4", "-DORDERED=0"], reach={"greedy_wide": ["end", "exhaustive", "partial"], "greedy_small": ["full"], "index_l2": ["end", "short", "exhaustive"]})],
    time=dict(quick=300, thorough=2000)),
 "G04": dict(
    units=[dict(file="consolidate.cpp", entries=["batch_1", "batch_3", "batch_all", "real_graph"], thorough_flags=["-DDEG=3"], reach={"batch_1": ["end", "updated"], "real_graph": ["updated"]})],
    time=dict(quick=240, thorough=1500)),
 "G03": dict(
    units=[dict(file="build.cpp", entries=["construct_l2", "construct_ip", "batch_l2"], reach={"construct_l2": ["end"], "batch_l2": ["end", "extension"]}),
           dict(file="build.cpp", entries=["par_room", "par_overflow", "par_full", "par_generate"], opts=["--race", "--preempt=4"], concurrent=True, reach={"par_room": ["end"]}),
           dict(file="build.cpp", entries=["construct_l2", "construct_ip"], flags=["-DNN=4"], tiers=["thorough"])],
    time=dict(quick=300, thorough=1500)),
 "D01": dict(
    units=[dict(file="translation.cpp", entries=["history_ids", "history_narrow", "history_from_two", "any_insert", "any_delete_external", "any_delete_internal", "any_remap", "identity"], quick_flags=["-DSTEPS=2"], thorough_flags=["-DSTEPS=3"], reach={"history_ids": ["end", "refused", "deleted", "remapped"], "any_insert": ["inserted", "refused"], "any_remap": ["remapped"]})],
    time=dict(quick=240, thorough=1500)),
 "D02": dict(
    units=[dict(file="dynamic.cpp", entries=["histories", "deletions", "values", "assembled", "reconstruct", "all_deleted"], thorough_flags=["-DSTEPS=4"], reach={"histories": ["end", "added", "refused", "deleted", "consolidated", "compacted"], "deletions": ["end"], "values": ["end"]})],
    time=dict(quick=300, thorough=1500)),
 "V04": dict(
    units=[dict(file="flat.cpp", entries=["order_less", "order_greater", "order_queries", "shape_less", "linear_less", "linear_greater", "heap_less", "heap_greater", "real_l2", "real_cosine"], thorough_flags=["-DFULL=1"], reach={"order_less": ["end"], "shape_less": ["end"], "heap_less": ["end"]}),
           dict(file="flat.cpp", entries=["shape_threads"], opts=["--preempt=1"], concurrent=True)],
    time=dict(quick=240, thorough=1500)),
 "T02": dict(
    units=[dict(file="threads.cpp", entries=['loop_static', 'loop_static_spin', 'loop_dynamic', 'loop_sequential', 'loop_each', 'loop_resize', 'loop_moved'], opts=["--race"], concurrent=True, quick_opts=["--preempt=3"], thorough_opts=["--preempt=5"], thorough_flags=["-DMAXTHREADS=3", "-DJOBS=3"], reach={'loop_static': ['end'], 'loop_dynamic': ['end']}),
           dict(file="threads.cpp", entries=['loop_shared'], opts=["--race"], concurrent=True, quick_opts=["--preempt=2"], thorough_opts=["--preempt=3"], reach={'loop_shared': ['end']}),
           dict(file="threads.cpp", entries=['loop_three'], opts=["--race"], concurrent=True, quick_opts=["--preempt=1"], thorough_opts=["--preempt=2"])],
    time=dict(quick=300, thorough=1500)),
 "T03": dict(
    units=[dict(file="threads.cpp", entries=['worker_jobs', 'worker_moved', 'worker_sleep'], opts=["--race"], concurrent=True, quick_opts=["--preempt=3"], thorough_opts=["--preempt=5"], thorough_flags=["-DMAXTHREADS=3", "-DJOBS=3"], reach={'worker_jobs': ['end'], 'worker_sleep': ['end']})],
    time=dict(quick=300, thorough=1500)),
 "T04": dict(
    units=[dict(file="threads.cpp", entries=['fail_one', 'fail_two', 'fail_kinds', 'fail_worker'], opts=["--race"], concurrent=True, quick_opts=["--preempt=2"], thorough_opts=["--preempt=4"], thorough_flags=["-DMAXTHREADS=3", "-DJOBS=3"], reach={'fail_two': ['failed', 'fine']}),
           dict(file="threads.cpp", entries=['fail_shared'], opts=["--race"], concurrent=True, quick_opts=["--preempt=2"], thorough_opts=["--preempt=3"], reach={'fail_shared': ['end']}),
           dict(file="threads.cpp", entries=['fail_three'], opts=["--race"], concurrent=True, quick_opts=["--preempt=1"], thorough_opts=["--preempt=2"])],
    time=dict(quick=300, thorough=1500)),
 "T05": dict(
    units=[dict(file="threads.cpp", entries=['lock_spin', 'lock_value', 'lock_assign'], opts=["--race"], concurrent=True, quick_opts=["--preempt=3"], thorough_opts=["--preempt=5"], thorough_flags=["-DMAXTHREADS=3", "-DJOBS=3"], reach={'lock_spin': ['end'], 'lock_value': ['end']})],
    time=dict(quick=300, thorough=1500)),
 "P03": dict(
    units=[dict(file="params.cpp", entries=["keep_build", "keep_search", "keep_index", "keep_inverted_search", "keep_clustering", "keep_inverted_build", "schema_build", "schema_search", "schema_index", "schema_inverted", "schema_clustering", "version_build", "version_search", "version_inverted_search", "version_clustering", "version_inverted_build", "version_index", "fields_build", "fields_search", "fields_index", "fields_inverted", "fields_clustering", "ranges_build", "ranges_search", "ranges_index", "ranges_inverted", "ranges_clustering", "plain_u64", "plain_i64", "plain_u32", "plain_i8", "plain_others", "distance_names", "outermost"], reach={"keep_build": ["end", "refused"], "version_build": ["loaded", "refused"], "fields_build": ["loaded", "refused"], "ranges_build": ["loaded", "refused"]})],
    time=dict(quick=150, thorough=1000)),
 "P02": dict(
    units=[dict(file="files.cpp", entries=["keep_float", "keep_half", "keep_i8", "keep_u64", "keep_blocked", "keep_mixed", "keep_static", "keep_graph", "keep_translator", "keep_clustering", "keep_blob_u8", "keep_blob_float",
                "cut_data", "cut_blocked", "cut_translator", "cut_clustering", "cut_blob", "vecs_float", "vecs_half", "vecs_u8", "vecs_u64", "binary_float", "binary_half", "binary_i8", "saved_vecs", "saved_results",
                "raw_vecs_float", "raw_vecs_u8", "raw_vecs_half", "raw_binary_float", "raw_binary_u8", "raw_native_float", "raw_native_i8", "raw_native_blocked"],
                thorough_flags=["-DMAXN=3", "-DMAXD=3", "-DRAW=24"],
                reach={"keep_float": ["end"], "cut_data": ["cut"], "raw_vecs_float": ["accepted", "refused"], "raw_binary_float": ["accepted", "refused"], "raw_native_float": ["accepted", "refused", "unknown"]})],
    time=dict(quick=240, thorough=1500)),
 "P04": dict(
    units=[dict(file="persist.cpp", entries=["dynamic_reloaded", "dynamic_settings", "saved_twice", "pieces_mixed", "static_reloaded", "static_to_dynamic", "orchestrated_dynamic", "orchestrated_static"], quick_flags=["-DSTEPS=2"], thorough_flags=["-DSTEPS=3"], reach={e: ["end"] for e in ("dynamic_reloaded", "dynamic_settings", "saved_twice", "pieces_mixed", "static_reloaded", "static_to_dynamic", "orchestrated_dynamic", "orchestrated_static")})],
    time=dict(quick=200, thorough=1000)),
 "P01": dict(
    units=[dict(file="ident.cpp", entries=["hex_digits", "uuid_roundtrip", "uuid_equal", "uuid_malformed", "uuid_length", "version_text", "version_huge", "version_roundtrip", "version_order", "datatype_names", "datatype_text"], thorough_flags=["-DVLEN=14", "-DNUM=999"], reach={"uuid_malformed": ["refused", "parsed"], "version_text": ["refused", "parsed"], "datatype_text": ["known", "unknown"]})],
    time=dict(quick=240, thorough=1500)),
 "V03": dict(
    units=[dict(file="half.cpp", entries=["widening", "narrowing", "assignment", "integers"], reach={"widening": ["end", "nan"], "narrowing": ["end", "nan", "inf", "tiny"]}),
           dict(file="half.cpp", entries=["widening", "narrowing", "assignment", "integers"], flags=["-march=x86-64-v3"], reach={"widening": ["end", "nan"], "narrowing": ["end", "nan", "inf", "tiny"]})],
    time=dict(quick=240, thorough=1000)),
 "V02": dict(
    units=[dict(file="distance.cpp", entries=DIST, quick_flags=["-DMAXLEN=100"], thorough_flags=["-DMAXLEN=257"], reach={"sum_f32_f32": ["end"], "cos_f32_f32": ["end"]}),
           dict(file="distance.cpp", entries=DIST, flags=["-march=x86-64-v3"], quick_flags=["-DMAXLEN=140"], thorough_flags=["-DMAXLEN=257"], reach={"sum_f32_f32": ["end"], "cos_f32_f32": ["end"]}),
           dict(file="distance.cpp", entries=DIST, flags=["-march=x86-64-v4", "-mavx512vnni"], quick_flags=["-DMAXLEN=140"], thorough_flags=["-DMAXLEN=257"], reach={"sum_f32_f32": ["end"], "cos_f32_f32": ["end"]}),
           _small([]), _small(["-march=x86-64-v3"]), _small(["-march=x86-64-v4", "-mavx512vnni"])],
    time=dict(quick=240, thorough=1000)),
 "V01": dict(
    units=[dict(file="data.cpp", entries=["flat_f32", "flat_i8", "flat_huge", "block_f32", "block_i8", "compact_threads", "compact_limits", "any_flat", "any_block", "any_static", "convert_i32_i8", "convert_i8_u8", "convert_u64_i32", "convert_float", "view_flat", "view_block", "view_range", "alias", "equality", "shapes", "ownership", "arrays"], quick_flags=["-DSTEPS=2"], thorough_flags=["-DSTEPS=3"], reach={"flat_f32": ["end", "refused"], "block_f32": ["end", "refused"], "view_flat": ["end", "refused"], "convert_i32_i8": ["end", "refused"]})],
    time=dict(quick=200, thorough=1000)),
 "V05": dict(
    units=[dict(file="recall.cpp", entries=["recall_one", "recall_mixed", "recall_shapes", "recall_rows", "recall_query_result", "medoid_line", "medoid_halves", "medoid_some", "medoid_mapped", "medoid_plane", "medoid_threads"], quick_flags=["-DIDS=2"], thorough_flags=["-DIDS=4", "-DNPTS=4", "-DRANGE=4"], reach={"recall_one": ["end", "refused"], "medoid_line": ["end"]}),
           dict(file="recall.cpp", entries=["recall_two"], quick_flags=["-DIDS=1"], thorough_flags=["-DIDS=3"])],
    time=dict(quick=150, thorough=1000)),
 "A01": dict(
    units=[dict(file="calibrate.cpp", entries=["window_only", "window_capacity", "below_neighbors", "both", "prefetching", "measuring"], thorough_flags=["-DDEGREES=0,1,2,3,4,5,8"], reach={"window_only": ["end"], "window_capacity": ["end"], "below_neighbors": ["end"], "both": ["tuned", "impossible"], "prefetching": ["end"], "measuring": ["end"]}),
           dict(file="calibrate.cpp", entries=["split_buffer"], flags=["-DUPPER=3"], quick_flags=["-DTIMES=2"], thorough_flags=["-DTIMES=3"], reach={"split_buffer": ["end", "split"]})],
    time=dict(quick=150, thorough=1000)),
 "C01": dict(
    units=[dict(file="dispatch.cpp", entries=["scores_value", "scores_reference", "scores_three", "yes_or_no", "moved", "alternatives", "alternatives_reference", "references", "extents", "element_types", "descriptions"], thorough_flags=["-DTARGETS=4"], reach={"scores_value": ["end", "none"], "scores_three": ["end", "none"], "extents": ["end", "none"], "descriptions": ["end"]})],
    time=dict(quick=150, thorough=1000)),
 "K01": dict(
    units=[dict(file="inverted.cpp", entries=["contents", "sorting", "reduce_less", "reduce_greater", "reduce_three", "assign_l2", "assign_ip", "assign_any_l2", "assign_any_ip", "assign_padded", "assign_rows", "whole_l2", "whole_ip", "whole_limited", "whole_range", "random_centroids", "nearest", "mean_error", "train"], thorough_flags=["-DSTEPS=4", "-DLEAVES=4"], reach={"contents": ["end", "added", "refused"], "reduce_less": ["end", "dry", "impossible"], "whole_limited": ["end", "refused"], "train": ["end", "refused"]}),
           dict(file="inverted.cpp", entries=["assign_threads"], opts=["--race"], concurrent=True, quick_opts=["--preempt=3"], thorough_opts=["--preempt=5"], reach={"assign_threads": ["end"]})],
    time=dict(quick=200, thorough=1000)),
 "K02": dict(
    units=[dict(file="inverted.cpp", entries=["find_sparse", "find_dense", "find_ip", "find_default", "find_queries"], reach={"find_sparse": ["end"]}),
           dict(file="inverted.cpp", entries=["real_index"], tiers=["thorough"])],
    time=dict(quick=200, thorough=1000)),
}
from bounds import B  # noqa: E402
for _k, (_q, _t, _o) in B.items():
    CHECKS[_k].setdefault("bounds", dict(quick=_q, thorough="as quick, but " + _t if _t != "same" else _q))
    CHECKS[_k].setdefault("outside", _o)
    CHECKS[_k].setdefault("assumptions", ["the bitcode clang 18 produces at -O2 (or as the unit's flags say) means what the shipped build means", "stand-ins of engine/rt.cpp and harness/memfs.h behave like the library functions they replace", "allocation succeeds"])
