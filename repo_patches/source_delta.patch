From fa942e8e700da6e5ece63deaca34932e0e390849 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 01/41] fix: return memory with the size and alignment it was
 obtained with

---
 include/svs/lib/memory.h              | 2 +-
 include/svs/lib/threads/threadlocal.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/memory.h b/include/svs/lib/memory.h
index 57c7348..c03a0d3 100644
--- a/include/svs/lib/memory.h
+++ b/include/svs/lib/memory.h
@@ -56,7 +56,7 @@ template <typename T> struct Allocator {
     }
 
     constexpr void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count);
+        ::operator delete(ptr, count * sizeof(T), std::align_val_t(alignof(T)));
     }
 
     // Intercept zero-argument construction to do default initialization.
diff --git a/include/svs/lib/threads/threadlocal.h b/include/svs/lib/threads/threadlocal.h
index 5572769..25b14db 100644
--- a/include/svs/lib/threads/threadlocal.h
+++ b/include/svs/lib/threads/threadlocal.h
@@ -77,7 +77,8 @@ template <typename T, size_t Alignment = CACHE_LINE_BYTES> struct AlignedAllocat
     }
 
     void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count, std::align_val_t{alignment});
+        size_t bytes = alignment * lib::div_round_up(sizeof(T) * count, alignment);
+        ::operator delete(ptr, bytes, std::align_val_t{alignment});
     }
 };
 
-- 
2.43.0


From 7eb9c372c59bb7caed989a4e69c731f89ca2377b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 02/41] fix: do not read the last candidate of an empty search
 buffer

---
 include/svs/index/vamana/search_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..50f0bd7 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -296,7 +296,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
     /// returns ``true``.
     ///
     bool can_skip(float distance) const {
-        return compare_(back().distance(), distance) && full();
+        return full() && compare_(back().distance(), distance);
     }
 
     ///
-- 
2.43.0


From e42d4821e652bec9a1ca5091c3630bf590ed596f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 03/41] fix: clamp the search buffer's size when its
 configuration shrinks

---
 include/svs/index/vamana/search_buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 50f0bd7..6c0089f 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -185,6 +185,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
         search_window_size_ = config.get_search_window_size();
         capacity_ = config.get_total_capacity();
         candidates_.resize(capacity_ + 1);
+        size_ = std::min(size_, capacity_);
     }
 
     ///
-- 
2.43.0


From a13bb590d5abe567552c22c61822358b3993c0c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 04/41] fix: do not report ids matching the empty pattern of
 the visited filter as visited

---
 include/svs/index/vamana/filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/filter.h b/include/svs/index/vamana/filter.h
index c947072..77a88a0 100644
--- a/include/svs/index/vamana/filter.h
+++ b/include/svs/index/vamana/filter.h
@@ -82,9 +82,11 @@ template <size_t N> class VisitedFilter<uint32_t, N> {
     constexpr static bool check(integer_type key, value_type value) {
         if constexpr (N >= 16) {
             // Make sure the upper-bits match.
-            return (key >> 16) == value;
+            // Keys that map to the sentinel are indistinguishable from an empty slot and
+            // thus never reported.
+            return (key >> 16) == value && value != sentinel;
         } else {
-            return key == value;
+            return key == value && value != sentinel;
         }
     }
 
-- 
2.43.0


From 865faadfacbd3d50e692fd5f8638cc5a42fd569a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 05/41] fix: compute bit masks that include the most
 significant bit

---
 include/svs/lib/misc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/misc.h b/include/svs/lib/misc.h
index a1787c3..592c419 100644
--- a/include/svs/lib/misc.h
+++ b/include/svs/lib/misc.h
@@ -531,7 +531,8 @@ template <std::integral T> constexpr T bitmask(T lo, T hi) {
     assert(lo < T(8 * sizeof(T)));
     assert(hi < T(8 * sizeof(T)));
 
+    // Shift in two steps to avoid shifting by the full width of ``T``.
     T one{1};
-    return static_cast<T>(one << (hi + one)) - static_cast<T>(one << lo);
+    return static_cast<T>(static_cast<T>(one << hi) << one) - static_cast<T>(one << lo);
 }
 } // namespace svs::lib
-- 
2.43.0


From 977768e3ed4bd574e2e9edb4cea599a1f620ace4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 06/41] fix: an empty range contains no value

---
 include/svs/lib/threads/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/threads/types.h b/include/svs/lib/threads/types.h
index a743558..13cf9f2 100644
--- a/include/svs/lib/threads/types.h
+++ b/include/svs/lib/threads/types.h
@@ -258,9 +258,9 @@ class UnitRange {
     }
 
     ///
-    /// Return `true` if the value `i` is in `[front(), back()]`. Otherwise, return `false`.
+    /// Return `true` if the value `i` is in `[start(), stop())`. Otherwise, return `false`.
     ///
-    bool contains(const T& i) const { return front() <= i && i <= back(); }
+    bool contains(const T& i) const { return start() <= i && i < stop(); }
 
     ///
     /// Return a unit range over the valid indices of the current range.
-- 
2.43.0


From b73415ee4a175b1b7bd902c0b20b9e29de6c480f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 07/41] fix: clear the result of pruning when the candidate
 pool is empty

---
 include/svs/index/vamana/prune.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..443fef5 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,12 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    // Clear unconditionally: callers reuse ``result`` across calls.
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +189,12 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    // Clear unconditionally: callers reuse ``result`` across calls.
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +264,12 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    // Clear unconditionally: callers reuse ``result`` across calls.
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From 829f3ad9966690f665d5b70362a16fbc61f1b4b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:28 +0000
Subject: [PATCH 08/41] fix: compare graphs through their interface and by
 whole adjacency lists

---
 include/svs/concepts/graph.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/concepts/graph.h b/include/svs/concepts/graph.h
index a139ce3..bcc7a1c 100644
--- a/include/svs/concepts/graph.h
+++ b/include/svs/concepts/graph.h
@@ -190,14 +190,14 @@ concept MemoryGraph = requires(T& g, const T& const_g) {
 ///
 template <ImmutableMemoryGraph Graph1, ImmutableMemoryGraph Graph2>
 bool graphs_equal(const Graph1& x, const Graph2& y) {
-    if (x.num_nodes() != y.num_nodes()) {
+    if (x.n_nodes() != y.n_nodes()) {
         return false;
     }
 
-    for (size_t i = 0, imax = x.num_nodes(); i < imax; ++i) {
+    for (size_t i = 0, imax = x.n_nodes(); i < imax; ++i) {
         const auto& xa = x.get_node(i);
         const auto& ya = y.get_node(i);
-        if (!std::equal(xa.begin(), xa.end(), ya.begin())) {
+        if (!std::equal(xa.begin(), xa.end(), ya.begin(), ya.end())) {
             return false;
         }
     }
-- 
2.43.0


From b041848efe88c34d1e981e0b6b9ced5dafaa0053 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 09/41] fix: mark the entries of a search result for which no
 neighbor was found

---
 include/svs/index/vamana/dynamic_index.h |  9 +++++++--
 include/svs/index/vamana/extensions.h    | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..3adf413 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -12,6 +12,7 @@
 #pragma once
 
 // stdlib
+#include <limits>
 #include <memory>
 
 // Include the flat index to spin-up exhaustive searches on demand.
@@ -368,8 +369,9 @@ class MutableVamanaIndex {
     /// (1) This is definitely not safe to call multiple times on the same array for obvious
     ///     reasons.
     ///
-    /// (2) All entries in `ids` should have valid translations. Otherwise, this function's
-    ///     behavior is undefined.
+    /// (2) Entries equal to ``std::numeric_limits<size_t>::max()`` mark missing neighbors
+    ///     and are left as they are. All other entries in `ids` should have valid
+    ///     translations. Otherwise, this function's behavior is undefined.
     ///
     template <class Dims, class Base>
         requires(std::tuple_size_v<Dims> == 2)
@@ -381,6 +383,9 @@ class MutableVamanaIndex {
             [&](const auto is, uint64_t /*tid*/) {
                 for (auto i : is) {
                     for (size_t j = 0, jmax = getsize<1>(ids); j < jmax; ++j) {
+                        if (ids.at(i, j) == std::numeric_limits<size_t>::max()) {
+                            continue;
+                        }
                         auto internal = lib::narrow_cast<Idx>(ids.at(i, j));
                         ids.at(i, j) = translate_internal_id(internal);
                     }
diff --git a/include/svs/index/vamana/extensions.h b/include/svs/index/vamana/extensions.h
index 647458e..28795d9 100644
--- a/include/svs/index/vamana/extensions.h
+++ b/include/svs/index/vamana/extensions.h
@@ -19,8 +19,12 @@
 #include "svs/index/vamana/greedy_search.h"
 #include "svs/lib/invoke.h"
 #include "svs/lib/misc.h"
+#include "svs/lib/neighbor.h"
 #include "svs/lib/preprocessor.h"
 #include "svs/lib/threads.h"
+#include "svs/lib/type_traits.h"
+
+#include <algorithm>
 
 namespace svs::index::vamana::extensions {
 
@@ -518,9 +522,19 @@ void svs_invoke(
         single_search(dataset, search_buffer, distance, queries.get_datum(i), search);
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
+        // The search may have found fewer neighbors than requested. Mark the entries
+        // without a neighbor like exhaustive search does.
+        const size_t num_found = std::min(num_neighbors, search_buffer.size());
+        for (size_t j = 0; j < num_found; ++j) {
             result.set(search_buffer[j], i, j);
         }
+        for (size_t j = num_found; j < num_neighbors; ++j) {
+            result.set(
+                type_traits::sentinel_v<Neighbor<I>, typename SearchBuffer::compare_type>,
+                i,
+                j
+            );
+        }
     }
 }
 
-- 
2.43.0


From a9508bb8a1ae94b9f8be6e573684a0df7eadfab9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 10/41] fix: add reverse edges from a consistent copy of each
 adjacency list

---
 include/svs/index/vamana/vamana_build.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/vamana_build.h b/include/svs/index/vamana/vamana_build.h
index b53c690..570eabd 100644
--- a/include/svs/index/vamana/vamana_build.h
+++ b/include/svs/index/vamana/vamana_build.h
@@ -451,8 +451,16 @@ class VamanaBuilder {
         auto range = threads::StaticPartition{indices};
         backedge_buffer_.reset();
         threads::run(threadpool_, range, [&](const auto& is, uint64_t SVS_UNUSED(tid)) {
+            std::vector<Idx> neighbors{};
             for (auto node_id : is) {
-                for (auto other_id : graph_.get_node(node_id)) {
+                // Other threads may be adding edges to this node. Take a copy of its
+                // adjacency list that is consistent.
+                {
+                    std::lock_guard lock{vertex_locks_[node_id]};
+                    const auto& current = graph_.get_node(node_id);
+                    neighbors.assign(current.begin(), current.end());
+                }
+                for (auto other_id : neighbors) {
                     std::lock_guard lock{vertex_locks_[other_id]};
                     if (graph_.get_node_degree(other_id) < params_.graph_max_degree) {
                         graph_.add_edge(other_id, node_id);
-- 
2.43.0


From 519babc68c8b1cbdffbbc9a57c761e1f06495858 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 11/41] fix: reject unrepresentable ids before translating any

---
 include/svs/core/translation.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..23a3551 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -113,6 +113,14 @@ class IDTranslator {
         // Perform checks before actually modifying data structures to prevent a partially
         // completed operation.
         if (check) {
+            // Ensure that all IDs are representable (throws otherwise).
+            for (auto e = ext_begin; e != ext_end; ++e) {
+                lib::narrow<external_id_type>(*e);
+            }
+            for (auto i = int_begin; i != int_end; ++i) {
+                lib::narrow<internal_id_type>(*i);
+            }
+
             if (!lib::all_unique(ext_begin, ext_end)) {
                 throw ANNEXCEPTION("External IDs contain repeat elements!");
             }
@@ -135,8 +143,11 @@ class IDTranslator {
 
     template <typename Ext, typename Int>
     void insert_translation(Ext external_id, Int internal_id) {
-        external_to_internal_[external_id] = lib::narrow<internal_id_type>(internal_id);
-        internal_to_external_[internal_id] = lib::narrow<external_id_type>(external_id);
+        // Convert both before modifying either table.
+        const auto external = lib::narrow<external_id_type>(external_id);
+        const auto internal = lib::narrow<internal_id_type>(internal_id);
+        external_to_internal_[external] = internal;
+        internal_to_external_[internal] = external;
     }
 
     ///
-- 
2.43.0


From 4b9b3a22922b6dc65830b73faa7274186f466dd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 12/41] fix: initialise all build parameters of an assembled
 mutable index

---
 include/svs/index/vamana/dynamic_index.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 3adf413..35c287d 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -166,7 +166,9 @@ class MutableVamanaIndex {
         , distance_{std::move(distance_function)}
         , threadpool_{std::move(threadpool)}
         , search_parameters_{vamana::construct_default_search_parameters(data_)}
-        , construction_window_size_{2 * graph.max_degree()} {
+        , construction_window_size_{2 * graph_.max_degree()}
+        , max_candidates_{5 * construction_window_size_}
+        , prune_to_{graph_.max_degree()} {
         translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
     }
 
-- 
2.43.0


From ef036d839d1f53feae157c6f3ceabe17771c92de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 13/41] fix: check the number and dimensions of added points
 before adding them

---
 include/svs/index/vamana/dynamic_index.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 35c287d..f210b59 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -553,6 +553,19 @@ class MutableVamanaIndex {
             );
         }
 
+        if (num_points == 0) {
+            return {};
+        }
+
+        // Check the dimensionality before anything is modified.
+        if (points.dimensions() != dimensions()) {
+            throw ANNEXCEPTION(
+                "Points have dimensions {} but index is {}!",
+                points.dimensions(),
+                dimensions()
+            );
+        }
+
         // Gather all empty slots.
         std::vector<size_t> slots{};
         slots.reserve(num_points);
-- 
2.43.0


From cee32f553732032e90afd9c94945be5ad4ba885d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 14/41] fix: refuse to delete the same id twice in one call

---
 include/svs/index/vamana/dynamic_index.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index f210b59..803d572 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -654,6 +654,9 @@ class MutableVamanaIndex {
     ///
     template <typename T> void delete_entries(const T& ids) {
         translator_.check_external_exist(ids.begin(), ids.end());
+        if (!lib::all_unique(ids.begin(), ids.end())) {
+            throw ANNEXCEPTION("IDs to delete contain repeat elements!");
+        }
         for (auto i : ids) {
             delete_entry(translator_.get_internal(i));
         }
-- 
2.43.0


From 7dbcd43134ea393ac52236bbace477746eb3db7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 15/41] fix: keep soft-deleted entries when compacting

---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 803d572..da5545e 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -685,7 +685,7 @@ class MutableVamanaIndex {
         auto indices = std::vector<Idx>();
         indices.reserve(size());
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (!is_deleted(i)) {
+            if (status_[i] != SlotMetadata::Empty) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From 14299070dd80152908e95968dc262d725a5337cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 16/41] fix: repair the exhaustive search of the mutable index

---
 include/svs/index/vamana/dynamic_index.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index da5545e..cab5ed9 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -485,9 +485,19 @@ class MutableVamanaIndex {
         QueryResultView<I> result
     ) {
         auto temp_index = temporary_flat_index(data_, distance_, threadpool_);
-        temp_index.search(queries, num_neighbors, result, [&](size_t i) {
-            return getindex(status_, i) == SlotMetadata::Valid;
-        });
+        if (result.n_neighbors() != num_neighbors) {
+            throw ANNEXCEPTION(
+                "Requested {} neighbors but the result has room for {}!",
+                num_neighbors,
+                result.n_neighbors()
+            );
+        }
+        temp_index.search(
+            result,
+            queries,
+            temp_index.get_search_parameters(),
+            [&](size_t i) { return getindex(status_, i) == SlotMetadata::Valid; }
+        );
 
         // After the search procedure, the indices in `results` are internal.
         // Perform one more pass to convert these to external ids.
-- 
2.43.0


From a8fdae320773c1b5c065746711f9f72dd83714c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 17/41] fix: repair the exhaustive search of the mutable index
 (qualify the flat index)

---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index cab5ed9..a6883fc 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -484,7 +484,7 @@ class MutableVamanaIndex {
         size_t num_neighbors,
         QueryResultView<I> result
     ) {
-        auto temp_index = temporary_flat_index(data_, distance_, threadpool_);
+        auto temp_index = flat::temporary_flat_index(data_, distance_, threadpool_);
         if (result.n_neighbors() != num_neighbors) {
             throw ANNEXCEPTION(
                 "Requested {} neighbors but the result has room for {}!",
-- 
2.43.0


From cf4bf9c654f6529642beecfad8ca051a2a85ce86 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:42 +0000
Subject: [PATCH 18/41] fix: return from the copy assignment of protected
 values

---
 include/svs/lib/concurrency/readwrite_protected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/lib/concurrency/readwrite_protected.h b/include/svs/lib/concurrency/readwrite_protected.h
index 01c0423..5b3f56b 100644
--- a/include/svs/lib/concurrency/readwrite_protected.h
+++ b/include/svs/lib/concurrency/readwrite_protected.h
@@ -56,6 +56,7 @@ template <typename T> class ReadWriteProtected {
             return *this;
         }
         set(other.get());
+        return *this;
     }
 
     /// @brief Move construction by move-assigning the shared object.
-- 
2.43.0


From 8740f3f267c687735b5a1474bedb89b6cc50ff35 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 19/41] fix: a thread pool of zero threads runs on the calling
 thread

---
 include/svs/lib/threads/threadpool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 05399b8..eef1ff8 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -134,7 +134,7 @@ template <typename Builder> class NativeThreadPoolBase {
     template <typename... Args>
     explicit NativeThreadPoolBase(uint64_t num_threads = 1, Args&&... args)
         : builder_{std::forward<Args>(args)...} {
-        for (size_t tid = 0; tid < num_threads - 1; ++tid) {
+        for (size_t tid = 0; tid + 1 < num_threads; ++tid) {
             threads_.push_back(builder_.build(tid + 1));
         }
     }
-- 
2.43.0


From ae5b7998e4ba39198418ef8a59e22b466a0e38ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 20/41] fix: wait for all workers when a job throws something
 that is not a std::exception

---
 include/svs/lib/threads/threadpool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index eef1ff8..3f8cef2 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -162,7 +162,9 @@ template <typename Builder> class NativeThreadPoolBase {
         // Run on the main function.
         try {
             f(0);
-        } catch (const std::exception& error) { manage_exception_during_run(error.what()); }
+        } catch (const std::exception& error) {
+            manage_exception_during_run(error.what());
+        } catch (...) { manage_exception_during_run("unknown exception"); }
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
@@ -192,6 +194,8 @@ template <typename Builder> class NativeThreadPoolBase {
                     thread.unsafe_get_exception();
                 } catch (const std::exception& error) {
                     fmt::format_to(inserter, "Thread {}: {}\n", i + 1, error.what());
+                } catch (...) {
+                    fmt::format_to(inserter, "Thread {}: unknown exception\n", i + 1);
                 }
                 // Restart the thread.
                 threads_[i].shutdown();
-- 
2.43.0


From 2acbe1e24df21d9fcf3a62ea3cc00d4e371f1638 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 21/41] fix: reject version strings with trailing characters

---
 include/svs/lib/version.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/version.h b/include/svs/lib/version.h
index 5da723f..e233648 100644
--- a/include/svs/lib/version.h
+++ b/include/svs/lib/version.h
@@ -52,7 +52,7 @@ namespace svs::lib {
 template <std::integral T> [[nodiscard]] T parse_int(std::string_view view) {
     auto value = T{0};
     auto result = std::from_chars(view.begin(), view.end(), value);
-    if (result.ec != std::errc()) {
+    if (result.ec != std::errc() || result.ptr != view.end()) {
         throw ANNEXCEPTION("Something went wrong with number parsing!");
     }
     return value;
-- 
2.43.0


From 52a5ba3f8111540d7a56f541b46e972e3078c460 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 22/41] fix: correct the portable half precision conversions

---
 include/svs/lib/float16.h | 49 +++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/include/svs/lib/float16.h b/include/svs/lib/float16.h
index 31bfd9a..8b47274 100644
--- a/include/svs/lib/float16.h
+++ b/include/svs/lib/float16.h
@@ -46,25 +46,44 @@ inline float bitcast_uint32_to_float(const uint32_t x) {
 // reference:
 // https://stackoverflow.com/questions/1659440/32-bit-to-16-bit-floating-point-conversion
 inline float float16_to_float_untyped_slow(const uint16_t x) {
-    // without norm/denorm (it makes code slow)
+    const uint32_t sign = static_cast<uint32_t>(x & 0x8000) << 16;
     const uint32_t e = (x & 0x7C00) >> 10; // exponent
-    const uint32_t m = (x & 0x03FF) << 13; // mantissa
-    return bitcast_uint32_to_float(
-        (x & 0x8000) << 16 | static_cast<uint32_t>(e != 0) * ((e + 112) << 23 | m)
-    );
+    const uint32_t m = x & 0x03FF;         // mantissa
+    if (e == 0) {
+        // Zero and subnormal numbers are multiples of 2^-24.
+        const auto magnitude = static_cast<float>(m) * 0x1p-24f;
+        return bitcast_uint32_to_float(sign | bitcast_float_to_uint32(magnitude));
+    }
+    if (e == 31) {
+        // Infinity and NaN
+        return bitcast_uint32_to_float(sign | 0x7F800000 | m << 13);
+    }
+    return bitcast_uint32_to_float(sign | (e + 112) << 23 | m << 13);
 }
 
 inline uint16_t float_to_float16_untyped_slow(const float x) {
-    // round-to-nearest-even: add last bit after truncated mantissa
-    const uint32_t b = bitcast_float_to_uint32(x) + 0x00001000;
-    const uint32_t e = (b & 0x7F800000) >> 23; // exponent
-    const uint32_t m = b & 0x007FFFFF;         // mantissa
-    return (b & 0x80000000) >> 16 |
-           static_cast<uint32_t>(e > 112) * ((((e - 112) << 10) & 0x7C00) | m >> 13) |
-           static_cast<uint32_t>((e < 113) && (e > 101)) *
-               ((((0x007FF000 + m) >> (125 - e)) + 1) >> 1) |
-           static_cast<uint32_t>(e > 143) *
-               0x7FFF; // sign : normalized : denormalized : saturate
+    const uint32_t b = bitcast_float_to_uint32(x);
+    const uint32_t sign = (b & 0x80000000) >> 16;
+    const uint32_t magnitude = b & 0x7FFFFFFF;
+    if (magnitude > 0x7F800000) {
+        // NaN: Keep the upper part of the payload and set the quiet bit.
+        return sign | 0x7E00 | ((magnitude >> 13) & 0x03FF);
+    }
+    if (magnitude >= 0x47800000) {
+        // At least 2^16: Too large to represent.
+        return sign | 0x7C00;
+    }
+    if (magnitude < 0x38800000) {
+        // Less than 2^-14: The result is zero or subnormal, a multiple of 2^-24. This is the
+        // spacing of single precision numbers starting at 0.5, so adding 0.5 performs the
+        // rounding.
+        const auto shifted = bitcast_uint32_to_float(magnitude) + 0.5f;
+        return sign | (bitcast_float_to_uint32(shifted) - 0x3F000000);
+    }
+    // round-to-nearest-even: A carry out of the mantissa increments the exponent, possibly
+    // yielding infinity.
+    const uint32_t rounded = magnitude + 0x0FFF + ((magnitude >> 13) & 1);
+    return sign | ((rounded - 0x38000000) >> 13);
 }
 
 // If the processor is new enough, we can use hardware intrinsics to perform the conversion
-- 
2.43.0


From aebd6e78e7de56191a13fd14c458816238e10838 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 23/41] fix: a default constructed dataset is empty

---
 include/svs/core/data/simple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 3ec4612..2900aa5 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -509,7 +509,7 @@ class SimpleData {
 
     ///// Members
     array_type data_;
-    size_t size_;
+    size_t size_ = 0;
 };
 
 template <typename T1, size_t E1, typename A1, typename T2, size_t E2, typename A2>
-- 
2.43.0


From 08dfe1ec25e8daab7e49e94d191c913e5ee0c6d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 24/41] fix: refuse vectors of the wrong length in blocked
 datasets in every build

---
 include/svs/core/data/simple.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 2900aa5..3039292 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -718,14 +718,12 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
 
     template <typename U, size_t OtherExtent>
     void set_datum(size_t i, std::span<U, OtherExtent> datum) {
-        if constexpr (checkbounds_v) {
-            if (datum.size() != dimensions()) {
-                throw ANNEXCEPTION(
-                    "Datum with dimensions {} is not equal to internal dimensions {}!",
-                    datum.size(),
-                    dimensions_
-                );
-            }
+        if (!check_dims<Extent, OtherExtent>(dimensions(), datum.size())) {
+            throw ANNEXCEPTION(
+                "Datum with dimensions {} is not equal to internal dimensions {}!",
+                datum.size(),
+                dimensions()
+            );
         }
 
         if constexpr (std::is_same_v<T, std::remove_const_t<U>>) {
-- 
2.43.0


From e49727691c473c32cfc3bc52890e9c72bb53a556 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 25/41] fix: refuse to compact without any working memory
 instead of never returning

---
 include/svs/core/compact.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/core/compact.h b/include/svs/core/compact.h
index 1496b84..ee5d0d7 100644
--- a/include/svs/core/compact.h
+++ b/include/svs/core/compact.h
@@ -48,6 +48,9 @@ void compact_data(
     size_t batchsize = buffer.size();
     size_t start = 0;
     size_t end = new_to_old.size();
+    if (batchsize == 0 && start < end) {
+        throw ANNEXCEPTION("Compaction requires room for at least one vector!");
+    }
     while (start < end) {
         size_t stop = std::min(start + batchsize, end);
         auto batch_to_new = threads::UnitRange{start, stop};
-- 
2.43.0


From df030cbd2cf147c021984bf386f4bf5f935637f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 26/41] fix: refuse a blocked dataset whose run-time and fixed
 lengths differ

---
 include/svs/core/data/simple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 3039292..8e0d50d 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -595,7 +595,7 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
               alloc.parameters().blocksize_bytes.value() / (sizeof(T) * n_dimensions)
           )}
         , blocks_{}
-        , dimensions_{n_dimensions}
+        , dimensions_{lib::as_integral(lib::forward_extent<Extent>(n_dimensions))}
         , size_{n_elements}
         , allocator_{alloc} {
         size_t elements_per_block = blocksize_.value();
-- 
2.43.0


From 66c9a3f0d15943aa78f245fbd66d5c4a74ea4700 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 27/41] fix: keep the nearest cluster inside the bound when its
 inner product is not positive

---
 include/svs/index/inverted/common.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/inverted/common.h b/include/svs/index/inverted/common.h
index 2e64dde..2b5394c 100644
--- a/include/svs/index/inverted/common.h
+++ b/include/svs/index/inverted/common.h
@@ -35,9 +35,8 @@ template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceL2)
 }
 
 template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceIP) {
-    // TODO: What do we do if the best match is simply bad?
-    assert(nearest > 0.0f);
-    return nearest / (1 + epsilon);
+    // With a bad best match, dividing would move the bound past the best match itself.
+    return nearest < 0 ? nearest * (1 + epsilon) : nearest / (1 + epsilon);
 }
 
 } // namespace svs::index::inverted
-- 
2.43.0


From a5b8db4afd3891b39bd0ef499657fc3c29cb5487 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 28/41] fix: search the nearest cluster even when its distance
 equals the bound

---
 include/svs/index/inverted/memory_based.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 6e5cf39..e1b5cf6 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -412,7 +412,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     for (size_t j = 0, jmax = scratch_buffer.size(); j < jmax; ++j) {
                         auto candidate = scratch_buffer[j];
-                        if (!compare(candidate.distance(), cutoff_distance)) {
+                        if (compare(cutoff_distance, candidate.distance())) {
                             break;
                         }
 
-- 
2.43.0


From 89a2b84fa9a4ddb53105e35b7ffb444310c28fdd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 29/41] fix: honour the primary search parameters passed to an
 inverted search

---
 include/svs/index/inverted/memory_based.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index e1b5cf6..d703224 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -385,7 +385,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 size_t num_neighbors = results.n_neighbors();
 
                 // Allocate scratch space to use the externally threaded
-                auto scratch = index_.scratchspace();
+                auto scratch = index_.scratchspace(search_parameters.primary_parameters_);
                 if (scratch.buffer.capacity() == 0) {
                     scratch.buffer.change_maxsize(1);
                 }
-- 
2.43.0


From c6140afe426639a7c355c121ccbb71401a4da2bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 30/41] fix: mark missing results of an inverted search instead
 of reading past the buffer

---
 include/svs/index/inverted/memory_based.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index d703224..c29aa6d 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -20,6 +20,7 @@
 #include "svs/index/inverted/memory_search_params.h"
 
 // stl
+#include <algorithm>
 #include <concepts>
 
 namespace svs::index::inverted {
@@ -437,9 +438,17 @@ template <typename Index, typename Cluster> class InvertedIndex {
                     }
 
                     // Store results
-                    for (size_t j = 0; j < num_neighbors; ++j) {
+                    // If too few candidates were found, mark the remaining entries as such
+                    // instead of reading past the end of the buffer.
+                    const size_t num_found = std::min(num_neighbors, buffer.size());
+                    for (size_t j = 0; j < num_found; ++j) {
                         results.set(buffer[j], i, j);
                     }
+                    for (size_t j = num_found; j < num_neighbors; ++j) {
+                        results.set(
+                            type_traits::sentinel_v<Neighbor<Idx>, decltype(compare)>, i, j
+                        );
+                    }
                 }
             }
         );
-- 
2.43.0


From 2b0e48d74512aba313f7291dd9f8904f9d38a48e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 31/41] fix: refuse to train more clusters than there are
 vectors instead of never returning

---
 include/svs/core/kmeans.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index cfe02f5..d534421 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -147,6 +147,13 @@ data::SimpleData<float> train_impl(
 ) {
     size_t ndims = data.dimensions();
     auto num_clusters = parameters.clusters;
+    if (num_clusters > data.size()) {
+        throw ANNEXCEPTION(
+            "Cannot select {} clusters from a dataset with {} elements!",
+            num_clusters,
+            data.size()
+        );
+    }
 
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
-- 
2.43.0


From 61af8dc4d3f8f05666f5f85d5d53f452db964b54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 32/41] fix: do not pick an initial centroid past the end of
 the dataset

---
 include/svs/core/kmeans.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index d534421..3268b3e 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -158,7 +158,8 @@ data::SimpleData<float> train_impl(
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
     auto rng = std::mt19937_64(parameters.seed);
-    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());
+    // N.B.: uniform_int_distribution is inclusive.
+    auto distribution = std::uniform_int_distribution<size_t>(0, data.size() - 1);
     std::unordered_set<size_t> seen{};
     for (size_t i = 0; i < num_clusters; ++i) {
         // Pick a vector a random.
-- 
2.43.0


From cf4cb73208db46124a26c6801534518add86e139 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 33/41] fix: do not accept bytes a truncated file does not hold

---
 include/svs/core/io/native.h | 13 +++++++++++--
 include/svs/lib/readwrite.h  |  7 +++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 230593b..8b11375 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -550,7 +550,10 @@ using FileMetadata = std::variant<vtest::Header, v1::Header, database::Header>;
 /// This function will not attempt to adjust the read position of the stream.
 ///
 inline uint64_t get_magic_number(std::ifstream& stream) {
-    return lib::read_binary<uint64_t>(stream);
+    uint64_t magic = 0;
+    stream.read(reinterpret_cast<char*>(&magic), sizeof(magic));
+    // Files that are too small to hold a magic number have none.
+    return stream ? magic : 0;
 }
 
 ///
@@ -695,7 +698,13 @@ find_uuid(const std::filesystem::path& dir, const lib::UUID& uuid) {
             continue;
         }
 
-        auto maybe_uuid = get_uuid(entry);
+        // Unrelated files that are empty or too short for a header do not end the search.
+        auto maybe_uuid = std::optional<lib::UUID>();
+        try {
+            maybe_uuid = get_uuid(entry);
+        } catch (const ANNException&) {
+            continue;
+        }
         if (maybe_uuid == uuid) {
             return entry.path();
         }
diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index 320535c..3f193c3 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -11,6 +11,8 @@
 
 #pragma once
 
+#include "svs/lib/exception.h"
+
 #include <span>
 #include <type_traits>
 #include <vector>
@@ -57,8 +59,13 @@ struct BinaryReader<Stream, std::vector<T, Alloc>> {
 ///   Each element of the vector will be populated as if by recursively calling
 ///   ``svs::lib::read_binary`` on each element beginning from the beginning.
 ///
+/// Throws an ``ANNException`` if the stream cannot provide all of the requested bytes.
+///
 template <typename T, typename Stream> void read_binary(Stream& stream, T& x) {
     BinaryReader<Stream, T>::call(stream, x);
+    if (!stream) {
+        throw ANNEXCEPTION("Could not read the requested number of bytes!");
+    }
 }
 
 ///
-- 
2.43.0


From 2bb8c29d48af302a37cbe3eeb6cb5cd650c6d638 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 34/41] fix: reload empty translation tables, blobs and
 clusterings

---
 include/svs/core/translation.h          |  4 ++++
 include/svs/index/inverted/clustering.h | 13 ++++++++-----
 include/svs/lib/saveload/bootstrap.h    |  3 ++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 23a3551..70fed0f 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -369,6 +369,10 @@ class IDTranslator {
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
         auto resolved = table.resolve_at("filename");
+        // Empty files cannot be opened for reading.
+        if (num_points == 0) {
+            return translator;
+        }
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
             auto external_id = lib::read_binary<external_id_type>(stream);
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index d8b9018..1f8d97c 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -608,14 +608,17 @@ template <std::integral I> class Clustering {
             if (actual_filesize != expected_filesize) {
                 throw ANNEXCEPTION(
                     "Expected cluster file size to be {}. Instead, it is {}!",
-                    actual_filesize,
-                    expected_filesize
+                    expected_filesize,
+                    actual_filesize
                 );
             }
 
-            auto io = lib::open_read(file);
-            for (size_t i = 0; i < num_clusters; ++i) {
-                clustering.insert(Cluster<I>::deserialize(io));
+            // Empty files cannot be opened for reading.
+            if (num_clusters != 0) {
+                auto io = lib::open_read(file);
+                for (size_t i = 0; i < num_clusters; ++i) {
+                    clustering.insert(Cluster<I>::deserialize(io));
+                }
             }
         }
         return clustering;
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 5a065a1..1377ee6 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -311,7 +311,8 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
         auto loader = BinaryBlobLoader(num_elements, allocator);
-        {
+        // Empty files cannot be opened for reading.
+        if (num_elements != 0) {
             auto istream = lib::open_read(filename);
             lib::read_binary(istream, loader.data_);
         }
-- 
2.43.0


From 8611dec47699a09416b06325f268633e1001f417 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 35/41] fix: do not divide by zero on binary files with an
 empty shape

---
 include/svs/core/io/binary.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index d3ea7bd..9cb1c08 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -51,6 +51,15 @@ get_dims(std::ifstream& stream, std::string_view source = {}, size_t elsize_hint
     size_t filesize_minus_header = filesize - sizeof(header);
     size_t n_vec_elements =
         lib::narrow<size_t>(header.num_vectors) * lib::narrow<size_t>(header.vector_dim);
+    if (n_vec_elements == 0) {
+        if (filesize_minus_header != 0) {
+            throw ANNEXCEPTION(
+                "Binary file {} holds data but its header describes an empty dataset.",
+                source.empty() ? "(unknown)"sv : source
+            );
+        }
+        return std::make_pair(header.num_vectors, header.vector_dim);
+    }
     size_t remainder = filesize_minus_header % n_vec_elements;
     size_t deduced_elsize = filesize_minus_header / n_vec_elements;
 
-- 
2.43.0


From c2afd207b3e694eaca7cd27017d745772de9e0b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 36/41] fix: check the length of every vector in vecs files

---
 include/svs/core/io/vecs.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 85a13f3..ccb9b27 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -56,7 +56,11 @@ inline size_t deduce_element_size(std::ifstream& stream, size_t dims, size_t fil
     for (size_t elsize : ALLOWED_ELEMENT_SIZES) {
         size_t offset = sizeof(length_t) + elsize * dims;
         if (is_last_vec(offset)) {
-            return offset == filesize ? elsize : 0;
+            if (offset == filesize) {
+                return elsize;
+            }
+            // Larger elements may still fit.
+            continue;
         }
 
         if (dims == next_dims(offset)) {
@@ -165,7 +169,16 @@ template <typename T> class VecsReader {
         auto value_reader = lib::ValueReader<length_t>();
         auto vector_reader = lib::VectorReader<T>(ndims());
         return lib::heterogeneous_iterator(
-            [](auto&& /*unused*/, auto&& span) { return span; },
+            [](length_t length, auto&& span) {
+                if (length != span.size()) {
+                    throw ANNEXCEPTION(
+                        "Expected a vector with {} dimensions. Got {}!",
+                        span.size(),
+                        length
+                    );
+                }
+                return span;
+            },
             stream_,
             vectors_to_read(),
             value_reader,
-- 
2.43.0


From b1d211f51cfe8cdabd820a6e5ff74ba6ac906baa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 37/41] fix: validate native data files before allocating for
 them

---
 include/svs/core/data/io.h   | 10 ++++++++-
 include/svs/core/io/native.h | 43 +++++++++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 54ee777..3ff38a4 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -138,7 +138,15 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
 template <typename File, typename WriteAccessor, lib::LazyInvocable<size_t, size_t> F>
 lib::lazy_result_t<F, size_t, size_t>
 load_impl(const File& file, WriteAccessor& accessor, const F& lazy) {
-    auto [vectors_to_read, ndims] = file.get_dims();
+    // When elements are read as they are stored, use their size to validate the file.
+    auto [vectors_to_read, ndims] = [&]() -> std::pair<size_t, size_t> {
+        if constexpr (std::is_same_v<WriteAccessor, DefaultWriteAccessor>) {
+            using Data = lib::lazy_result_t<F, size_t, size_t>;
+            return file.get_dims(sizeof(typename Data::element_type));
+        } else {
+            return file.get_dims();
+        }
+    }();
     auto data = lazy(vectors_to_read, ndims);
     populate(data, accessor, file);
     return data;
diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 8b11375..f836091 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -116,17 +116,36 @@ template <typename T> inline T read_header(const std::filesystem::path& path) {
     return lib::read_binary<T>(stream);
 }
 
-template <typename T> inline std::pair<size_t, size_t> get_dims(std::ifstream& stream) {
+template <typename T>
+inline std::pair<size_t, size_t>
+get_dims(std::ifstream& stream, size_t elsize_hint = 0) {
     stream.seekg(0, std::ifstream::beg);
     auto header = lib::read_binary<T>(stream);
+    size_t num_vectors = header.num_vectors_;
+    size_t dimensions = header.dimensions_per_vector_;
+
+    // If the size of each element is known, make sure that all vectors are present.
+    if (elsize_hint != 0 && num_vectors != 0 && dimensions != 0) {
+        stream.seekg(0, std::ifstream::end);
+        size_t elements_in_file =
+            (static_cast<size_t>(stream.tellg()) - sizeof(T)) / elsize_hint;
+        if (num_vectors > elements_in_file / dimensions) {
+            throw ANNEXCEPTION(
+                "File is too small to hold {} vectors with {} dimensions!",
+                num_vectors,
+                dimensions
+            );
+        }
+    }
     stream.seekg(0, std::ifstream::beg);
-    return std::make_pair(header.num_vectors_, header.dimensions_per_vector_);
+    return std::make_pair(num_vectors, dimensions);
 }
 
 template <typename T>
-inline std::pair<size_t, size_t> get_dims(const std::filesystem::path& path) {
+inline std::pair<size_t, size_t>
+get_dims(const std::filesystem::path& path, size_t elsize_hint = 0) {
     auto stream = lib::open_read(path, std::ifstream::in | std::ifstream::binary);
-    return get_dims<T>(stream);
+    return get_dims<T>(stream, elsize_hint);
 }
 } // namespace detail
 
@@ -272,7 +291,9 @@ class NativeFile {
 
     // Methods
     Header header() const { return detail::read_header<Header>(path_); }
-    std::pair<size_t, size_t> get_dims() const { return detail::get_dims<Header>(path_); }
+    std::pair<size_t, size_t> get_dims(size_t elsize_hint = 0) const {
+        return detail::get_dims<Header>(path_, elsize_hint);
+    }
     lib::UUID uuid() const { return detail::read_header<Header>(path_).uuid_; }
 
     template <typename T>
@@ -454,7 +475,9 @@ class NativeFile {
         return writer(lib::Type<void>(), dimensions, uuid);
     }
 
-    std::pair<size_t, size_t> get_dims() const { return detail::get_dims<Header>(path_); }
+    std::pair<size_t, size_t> get_dims(size_t elsize_hint = 0) const {
+        return detail::get_dims<Header>(path_, elsize_hint);
+    }
 
     // Memory Map
     template <typename T>
@@ -738,8 +761,12 @@ class NativeFile {
     ///
     /// @brief Get the dimensions of the resulting file.
     ///
-    std::pair<size_t, size_t> get_dims() const {
-        return resolve([](const auto& resolved) { return resolved.get_dims(); });
+    /// @param elsize_hint (optional) Element size in bytes. If given, the file must be large
+    ///     enough to hold all vectors.
+    ///
+    std::pair<size_t, size_t> get_dims(size_t elsize_hint = 0) const {
+        return resolve([&](const auto& resolved) { return resolved.get_dims(elsize_hint); }
+        );
     }
 
     ///
-- 
2.43.0


From 6430b368cbfc8afd04f52363d67d8c4d9855d238 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 38/41] fix: do not divide by zero in blocked data without
 dimensions

---
 include/svs/core/data/simple.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 8e0d50d..94f9ab9 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -592,7 +592,8 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
     ///// Constructors
     SimpleData(size_t n_elements, size_t n_dimensions, const Blocked<Alloc>& alloc)
         : blocksize_{lib::prevpow2(
-              alloc.parameters().blocksize_bytes.value() / (sizeof(T) * n_dimensions)
+              alloc.parameters().blocksize_bytes.value() / sizeof(T) /
+              std::max<size_t>(n_dimensions, 1)
           )}
         , blocks_{}
         , dimensions_{lib::as_integral(lib::forward_extent<Extent>(n_dimensions))}
-- 
2.43.0


From 017a99a8c9cf2b1ae7bd4495d6339ea1ad18fc7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 39/41] fix: make io::save_vecs compile

---
 include/svs/core/data/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 3ff38a4..4fa9051 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -124,7 +124,7 @@ void save(const Dataset& data, const File& file, const lib::UUID& uuid = lib::Ze
 template <data::ImmutableMemoryDataset Dataset>
 void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     auto file = vecs::VecsFile{path};
-    auto writer = file.writer(data.dimensionsions());
+    auto writer = file.template writer<typename Dataset::element_type>(data.dimensions());
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
-- 
2.43.0


From fc0bae012aee12985dfde018c1a14153ab168b5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 40/41] fix: remember the time of the largest prefetch
 lookahead when tuning prefetching

---
 include/svs/index/vamana/calibrate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/index/vamana/calibrate.h b/include/svs/index/vamana/calibrate.h
index b4f9e32..2c13d49 100644
--- a/include/svs/index/vamana/calibrate.h
+++ b/include/svs/index/vamana/calibrate.h
@@ -397,6 +397,7 @@ VamanaSearchParameters tune_prefetch(
             sp.prefetch_lookahead_ = max_lookahead;
             auto search_time = get_search_time(calibration_parameters, do_search, sp);
             if (search_time < min_search_time) {
+                min_search_time = search_time;
                 search_parameters.prefetch_lookahead_ = sp.prefetch_lookahead_;
                 search_parameters.prefetch_step_ = sp.prefetch_step_;
             }
-- 
2.43.0


From 7d3c651a3079303d1ce116810515a170067bf353 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 41/41] fix: try the largest search window before giving up
 calibration

---
 include/svs/index/vamana/calibrate.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/svs/index/vamana/calibrate.h b/include/svs/index/vamana/calibrate.h
index 2c13d49..811d7f4 100644
--- a/include/svs/index/vamana/calibrate.h
+++ b/include/svs/index/vamana/calibrate.h
@@ -293,6 +293,12 @@ std::pair<VamanaSearchParameters, bool> optimize_search_buffer(
         }
     );
 
+    // The search above does not evaluate its upper bound.
+    if (max_recall < target_recall) {
+        configure_current_buffer(search_window_size);
+        max_recall = std::max(max_recall, compute_recall(current));
+    }
+
     // Determine if we want to optimize for split-buffer operation as well.
 
     // Force exit.
-- 
2.43.0

