// Graph search: any small directed graph, any data and query, any window and capacity.
#include "symx.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/greedy_search.h"
#include "svs/index/vamana/index.h"
#include <vector>
#ifndef NN
#define NN 3
#endif
#ifndef ORDERED
#define ORDERED 1
#endif
using namespace svs;
using namespace svs::index::vamana;
using Data = data::SimpleData<float>;
constexpr size_t N = NN;

// A graph whose lists are chosen when first read: every graph, one path per part that is looked at.
struct LazyGraph {
    using index_type = uint32_t;
    using value_type = std::span<uint32_t>;
    using reference = std::span<uint32_t>;
    using const_reference = std::span<const uint32_t>;
    mutable std::vector<uint32_t> lists[N];
    mutable bool known[N] = {};
    mutable unsigned reads[N] = {};
    size_t max_degree() const { return N; }
    size_t n_nodes() const { return N; }
    const_reference get_node(uint32_t i) const {
        CHECK_(i < N, "search reads the neighbors of a node that does not exist");
        if (!known[i]) {
            known[i] = true;
            unsigned left[N], nl = 0;
            for (unsigned j = 0; j < N; ++j) if (j != i) left[nl++] = j;
            if (ORDERED) {
                while (nl) {
                    unsigned c = symx::pick(0, nl, "edge");
                    if (c == nl) break;
                    lists[i].push_back(left[c]);
                    for (unsigned k = c; k + 1 < nl; ++k) left[k] = left[k + 1];
                    --nl;
                }
            } else {
                for (unsigned j = 0; j < nl; ++j) if (symx::pick(0, 1, "edge")) lists[i].push_back(left[j]);
            }
        }
        ++reads[i];
        return {lists[i].data(), lists[i].size()};
    }
    size_t get_node_degree(uint32_t i) const { return get_node(i).size(); }
    void prefetch_node(uint32_t i) const { CHECK_(i < N, "search prefetches a node that does not exist"); }
};

template <typename Dist> struct World {
    Data data{N, 1};
    float v[N];
    std::vector<float> q{0.0f};
    World(int lo, int hi) {
        for (size_t i = 0; i < N; ++i) { v[i] = symx_range_float(lo, hi, "v"); data.set_datum(i, std::vector<float>{v[i]}); }
        q[0] = std::is_same_v<Dist, distance::DistanceL2> ? 0.0f : 1.0f;
    }
    float dist(size_t i) const { return std::is_same_v<Dist, distance::DistanceL2> ? (q[0] - v[i]) * (q[0] - v[i]) : q[0] * v[i]; }
};

struct Tracker {
    bool seen[N] = {};
    bool bad = false;
    template <typename I> void visited(Neighbor<I> n, size_t) { if (n.id() < N) seen[n.id()] = true; else bad = true; }
};

template <typename Dist> void greedy(int lo, int hi, bool visited, size_t maxw, size_t maxc) {
    using Cmp = typename Dist::compare;
    Cmp cmp{};
    World<Dist> w(lo, hi);
    LazyGraph g;
    size_t window = symx::pick(1, maxw, "window");
    size_t cap = symx::pick(window, maxc, "capacity");
    std::vector<uint32_t> ep;
    ep.push_back(symx::pick(0, 1, "entry") ? 0 : N - 1);
    if (cap > 1 && symx::pick(0, 1, "entries")) ep.push_back(1);
    Dist d{};
    auto acc = data::GetDatumAccessor();
    SearchBuffer<uint32_t, Cmp> buf(SearchBufferConfig(window, cap), cmp, visited);
    // what an earlier query left behind must not matter
    buf.push_back(SearchNeighbor<uint32_t>(7, 0.0f));
    if (visited) buf.emplace_visited(1);
    Tracker t;
    auto query = lib::as_const_span(w.q);
    greedy_search(g, w.data, acc, query, d, buf, ep, NeighborBuilder(), t, GreedySearchPrefetchParameters{4, 2});
    size_t n = buf.size();
    CHECK_(n <= cap, "more results than the buffer's capacity");
    bool in[N] = {};
    bool exist = true, distinct = true, truth = true, sorted = true;
    for (size_t i = 0; i < n && i <= cap; ++i) {
        size_t id = buf[i].id();
        if (id >= N) { exist = false; continue; }
        distinct &= !in[id]; in[id] = true;
        truth &= buf[i].distance() == w.dist(id);
        if (i) sorted &= !cmp(buf[i].distance(), buf[i - 1].distance());
    }
    CHECK_(exist, "a result does not exist");
    CHECK_(distinct, "a result is returned twice");
    CHECK_(truth, "a reported distance is not that between the query and the vector");
    CHECK_(sorted, "results are not ordered best first");
    CHECK_(!t.bad, "the tracker was told of a node that does not exist");
    if (!exist) return;
    // what the search has looked at: the entry points and all neighbors of what it expanded
    bool reached[N] = {};
    for (auto e : ep) reached[e] = true;
    for (size_t i = 0; i < N; ++i) if (g.known[i]) for (auto j : g.lists[i]) reached[j] = true;
    bool best = true, expanded = true, valid_expansion = true;
    for (size_t i = 0; i < N; ++i) {
        if (reached[i] && !in[i]) best &= n == cap && !cmp(w.dist(i), buf[n - 1].distance());
        if (in[i]) best &= reached[i];
        if (g.known[i]) valid_expansion &= reached[i];
    }
    for (size_t i = 0; i < n && i < window; ++i) expanded &= g.known[buf[i].id()];
    CHECK_(best, "a better vector that the search reached is missing");
    CHECK_(expanded, "search ended before expanding the best candidates");
    CHECK_(valid_expansion, "search expanded a node it had not reached");
    for (size_t i = 0; i < N; ++i) if (g.known[i]) CHECK_(t.seen[i], "the tracker was not told of an expanded node");
    if (window >= N) {
        // full exploration: exactly what is reachable
        bool r[N] = {};
        for (auto e : ep) r[e] = true;
        for (size_t k = 0; k < N; ++k) for (size_t i = 0; i < N; ++i) if (r[i]) for (auto j : g.lists[i]) r[j] = true;
        bool all = true;
        for (size_t i = 0; i < N; ++i) all &= r[i] == in[i];
        CHECK_(all, "with a window covering the graph the search missed a reachable vector");
        symx_reach("exhaustive");
    }
    // neither the visited filter nor prefetching changes the result
    SearchBuffer<uint32_t, Cmp> other(SearchBufferConfig(window, cap), cmp, !visited);
    auto pf = symx::pick(0, 2, "prefetch");
    greedy_search(g, w.data, acc, query, d, other, ep, NeighborBuilder(), pf == 0 ? GreedySearchPrefetchParameters{0, 0} : pf == 1 ? GreedySearchPrefetchParameters{1, 1} : GreedySearchPrefetchParameters{1, 3});
    CHECK_(other.size() == n, "the visited filter or prefetching changes the number of results");
    bool same = true;
    for (size_t i = 0; i < n && i < other.size(); ++i) same &= other[i].id() == buf[i].id() && other[i].distance() == buf[i].distance();
    CHECK_(same, "the visited filter or prefetching changes the results");
    symx_reach("end");
    if (n == cap) symx_reach("full");
    if (n < N) symx_reach("partial");
}
using DL2 = distance::DistanceL2;
using DIP = distance::DistanceIP;
ENTRY(greedy_small) { greedy<DL2>(0, 3, false, N - 1, N - 1); }
ENTRY(greedy_wide) { greedy<DL2>(0, 3, false, N, N); }
ENTRY(greedy_visited) { greedy<DL2>(0, 3, true, N - 1, N); }
ENTRY(greedy_ip) { greedy<DIP>(-1, 2, false, N - 1, N); }

// The search of a mutable index: deleted vectors route but are never returned.
template <typename Dist> void mutable_search(int lo, int hi) {
    using Cmp = typename Dist::compare;
    Cmp cmp{};
    World<Dist> w(lo, hi);
    LazyGraph g;
    size_t window = symx::pick(1, N, "window");
    std::vector<SlotMetadata> status(N, SlotMetadata::Valid);
    for (size_t i = 0; i < N; ++i) if (symx::pick(0, 1, "deleted")) status[i] = SlotMetadata::Deleted;
    std::vector<uint32_t> ep{0};
    Dist d{};
    auto acc = data::GetDatumAccessor();
    MutableBuffer<uint32_t, Cmp> buf(window, cmp);
    auto query = lib::as_const_span(w.q);
    greedy_search(g, w.data, acc, query, d, buf, ep, ValidBuilder(status), GreedySearchPrefetchParameters{1, 1});
    buf.cleanup();
    size_t n = buf.size();
    bool in[N] = {};
    bool exist = true, distinct = true, truth = true, sorted = true, live = true;
    for (size_t i = 0; i < n; ++i) {
        size_t id = buf[i].id();
        if (id >= N) { exist = false; continue; }
        distinct &= !in[id]; in[id] = true;
        live &= status[id] == SlotMetadata::Valid;
        truth &= buf[i].distance() == w.dist(id);
        if (i) sorted &= !cmp(buf[i].distance(), buf[i - 1].distance());
    }
    CHECK_(exist && distinct, "a result does not exist or is returned twice");
    CHECK_(live, "a deleted vector is returned");
    CHECK_(truth, "a reported distance is not that between the query and the vector");
    CHECK_(sorted, "results are not ordered best first");
    if (!exist) return;
    bool reached[N] = {};
    for (auto e : ep) reached[e] = true;
    for (size_t i = 0; i < N; ++i) if (g.known[i]) for (auto j : g.lists[i]) reached[j] = true;
    bool best = true, expanded = true;
    for (size_t i = 0; i < N; ++i) {
        if (reached[i] && !in[i] && status[i] == SlotMetadata::Valid) best &= n >= window && !cmp(w.dist(i), buf[n - 1].distance());
    }
    for (size_t i = 0; i < n && i < window; ++i) expanded &= g.known[buf[i].id()];
    CHECK_(best, "a better live vector that the search reached is missing");
    CHECK_(expanded, "search ended before expanding the best live candidates");
    // deleted candidates better than the worst live result (or all, when there are too few) are expanded as well
    bool through = true;
    for (size_t i = 0; i < N; ++i)
        if (reached[i] && status[i] == SlotMetadata::Deleted && (n < window || cmp(w.dist(i), buf[n - 1].distance()))) through &= g.known[i];
    CHECK_(through, "search did not continue through a deleted vector");
    symx_reach("end");
}
ENTRY(mutable_l2) { mutable_search<DL2>(0, 3); }

// End to end: the static index over a given graph.
template <typename Dist> void index_search(int lo, int hi) {
    using Cmp = typename Dist::compare;
    Cmp cmp{};
    World<Dist> w(lo, hi);
    graphs::SimpleGraph<uint32_t, lib::Allocator<uint32_t>> g(N, N);
    std::vector<uint32_t> lists[N];
    for (uint32_t i = 0; i < N; ++i) {
        for (uint32_t j = 0; j < N; ++j) if (j != i && symx::pick(0, 1, "edge")) lists[i].push_back(j);
        g.replace_node(i, lists[i]);
    }
    uint32_t ep = symx::pick(0, 1, "entry") ? 0 : N - 1;
    auto idx = VamanaIndex(std::move(g), std::move(w.data), ep, Dist(), threads::NativeThreadPool(1));
    size_t window = symx::pick(1, N, "window"), k = symx::pick(1, N + 1, "k");
    auto queries = Data(2, 1);
    queries.set_datum(0, w.q);
    queries.set_datum(1, std::vector<float>{w.q[0] + 1});
    auto result = QueryResult<size_t>(2, k);
    auto sp = VamanaSearchParameters(SearchBufferConfig(window), symx::pick(0, 1, "visited"), 1, 1);
    idx.search(result.view(), queries, sp);
    bool r[N] = {};
    r[ep] = true;
    for (size_t t = 0; t < N; ++t) for (size_t i = 0; i < N; ++i) if (r[i]) for (auto j : lists[i]) r[j] = true;
    size_t reach = 0;
    for (size_t i = 0; i < N; ++i) reach += r[i];
    for (size_t qi = 0; qi < 2; ++qi) {
        bool in[N] = {};
        bool exist = true, distinct = true, truth = true, sorted = true;
        size_t found = 0;
        for (size_t j = 0; j < k; ++j) {
            size_t id = result.index(qi, j);
            if (id == size_t(-1)) continue;
            exist &= id < N && j == found;
            if (!exist) break;
            ++found;
            distinct &= !in[id]; in[id] = true;
            float q = queries.get_datum(qi)[0];
            float d = std::is_same_v<Dist, DL2> ? (q - w.v[id]) * (q - w.v[id]) : q * w.v[id];
            truth &= result.distance(qi, j) == d;
            if (j) sorted &= !cmp(result.distance(qi, j), result.distance(qi, j - 1));
        }
        CHECK_(exist, "the index returns an id that does not exist");
        CHECK_(distinct, "the index returns a vector twice");
        CHECK_(truth, "the index reports a wrong distance");
        CHECK_(sorted, "the index's results are not ordered best first");
        CHECK_(found >= 1 && found <= std::min(k, reach), "the index returns too few results or unreachable ones");
        if (std::max(window, k) >= N && exist) {
            CHECK_(found == std::min(k, reach), "the index returns fewer results than it can reach");
            bool best = true;
            for (size_t i = 0; i < N; ++i) if (r[i] && !in[i]) {
                float q = queries.get_datum(qi)[0];
                float d = std::is_same_v<Dist, DL2> ? (q - w.v[i]) * (q - w.v[i]) : q * w.v[i];
                best &= !cmp(d, result.distance(qi, found - 1));
            }
            CHECK_(best, "the index misses a nearest neighbor although it explores the whole graph");
            symx_reach("exhaustive");
        }
        if (found < k) symx_reach("short");
    }
    symx_reach("end");
}
ENTRY(index_l2) { index_search<DL2>(0, 1); }
