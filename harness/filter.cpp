// Visited filter and its use by the search buffers.
#include "symx.h"
#include "svs/index/vamana/filter.h"
#include "svs/index/vamana/search_buffer.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
#ifndef STEPS
#define STEPS 3
#endif
using namespace svs::index::vamana;
template <size_t N> void filter() {
    VisitedFilter<uint32_t, N> f{};
    uint32_t k[STEPS];
    bool prev = symx_choose(2, "used_before");
    if (prev) { f.emplace(symx::any<uint32_t>("old")); f.reset(); }
    for (int i = 0; i < STEPS; ++i) {
        k[i] = symx::any<uint32_t>("key");
        bool seen = false;
        for (int j = 0; j < i; ++j) seen |= k[j] == k[i];
        bool r = f.emplace(k[i]);
        CHECK_(!r || seen, "emplace reports an id as already present that was never entered");
    }
    uint32_t q = symx::any<uint32_t>("query");
    bool in = false;
    for (int j = 0; j < STEPS; ++j) in |= k[j] == q;
    bool c = f.contains(q);
    CHECK_(!c || in, "filter contains an id that was never entered");
    // the last one entered in a slot is still known, unless it is the reserved pattern
    bool last = f.contains(k[STEPS - 1]);
    CHECK_(last || (N >= 16 ? (k[STEPS - 1] >> 16) == 0xffff : k[STEPS - 1] == 0xffffffffu), "filter forgot the id entered last");
    f.reset();
    CHECK_(!f.contains(q), "filter not empty after reset");
    symx_observe("c", c);
    symx_reach("end");
}
ENTRY(filter_2) { filter<2>(); }
ENTRY(filter_16) { filter<16>(); }
ENTRY(filter_17) { filter<17>(); }
template <typename B> void in_buffer() {
    B b(SearchBufferConfig(1, 2), std::less<>{}, true);
    uint32_t a = symx::any<uint32_t>("a"), c = symx::any<uint32_t>("c");
    CHECK_(b.visited_set_enabled(), "filter not enabled");
    bool ra = b.emplace_visited(a);
    CHECK_(!ra, "filter claims an id nobody entered");
    CHECK_(!b.is_visited(c) || c == a, "filter claims an id nobody entered");
    b.clear();
    CHECK_(!b.is_visited(c), "filter survives clear");
    b.emplace_visited(a);
    b.disable_visited_set();
    CHECK_(!b.is_visited(a) && !b.emplace_visited(a), "disabled filter claims an id");
    b.enable_visited_set();
    CHECK_(!b.is_visited(c), "re-enabled filter is not empty");
    b.emplace_visited(a);
    auto s = b.shallow_copy();
    CHECK_(s.visited_set_enabled(), "scratch copy lost the filter");
    CHECK_(!s.is_visited(c), "scratch copy inherited visited ids");
    symx_reach("end");
}
ENTRY(filter_static) { in_buffer<SearchBuffer<uint32_t>>(); }
ENTRY(filter_dynamic) { in_buffer<MutableBuffer<uint32_t>>(); }
