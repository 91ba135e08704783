// Consolidation: any small graph, deletion set, data, limits and batch size.
#include "symx.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/consolidate.h"
#include "svs/lib/threads.h"
#include <vector>
#ifndef NN
#define NN 4
#endif
#ifndef DEG
#define DEG 2
#endif
using namespace svs;
using namespace svs::index::vamana;
using Data = data::SimpleData<float>;
constexpr size_t N = NN;

// A graph whose lists are chosen when first read.
struct LazyGraph {
    using index_type = uint32_t;
    using value_type = std::span<uint32_t>;
    using const_value_type = std::span<const uint32_t>;
    using reference = std::span<uint32_t>;
    using const_reference = std::span<const uint32_t>;
    mutable std::vector<uint32_t> lists[N];
    mutable std::vector<uint32_t> original[N];
    mutable bool known[N] = {};
    unsigned writes[N] = {};
    size_t max_degree() const { return DEG; }
    size_t n_nodes() const { return N; }
    void know(uint32_t i) const {
        CHECK_(i < N, "consolidation touches a node that does not exist");
        if (known[i]) return;
        known[i] = true;
        for (unsigned j = 0; j < N; ++j) if (j != i && lists[i].size() < DEG && symx::pick(0, 1, "edge")) lists[i].push_back(j);
        original[i] = lists[i];
    }
    const_reference get_node(uint32_t i) const { know(i); return {lists[i].data(), lists[i].size()}; }
    size_t get_node_degree(uint32_t i) const { return get_node(i).size(); }
    void prefetch_node(uint32_t) const {}
    size_t add_edge(uint32_t s, uint32_t d) { know(s); lists[s].push_back(d); return lists[s].size(); }
    void clear_node(uint32_t i) { know(i); lists[i].clear(); }
    void replace_node(uint32_t i, const std::vector<uint32_t>& v) { replace_node(i, std::span<const uint32_t>(v.data(), v.size())); }
    void replace_node(uint32_t i, std::span<const uint32_t> v) { know(i); ++writes[i]; lists[i].assign(v.begin(), v.end()); }
};
template <typename Dist> float dist(float a, float b) { return std::is_same_v<Dist, distance::DistanceL2> ? (a - b) * (a - b) : a * b; }

template <typename Dist, typename G> void check(const G& g, const std::vector<uint32_t>* before, const bool* known, const bool* del, const float* v, size_t prune_to, size_t pool, float alpha) {
    typename Dist::compare cmp{};
    for (size_t s = 0; s < N; ++s) {
        if (!known[s]) continue;
        auto l = g.get_node(s);
        if (del[s]) continue;
        bool adjacent = false;
        for (auto d : before[s]) adjacent |= del[d];
        if (!adjacent) {
            bool same = l.size() == before[s].size();
            for (size_t i = 0; same && i < l.size(); ++i) same &= l[i] == before[s][i];
            CHECK_(same, "a list without deleted neighbors was changed");
            continue;
        }
        symx_reach("updated");
        bool cand[N] = {};
        for (auto d : before[s]) {
            if (!del[d]) cand[d] = true;
            else for (auto e : before[d]) if (!del[e] && e != s) cand[e] = true;
        }
        CHECK_(l.size() <= prune_to && l.size() <= g.max_degree(), "a consolidated list exceeds its limit");
        bool in[N] = {};
        bool ok = true, distinct = true, selfless = true, live = true;
        for (auto d : l) {
            if (d >= N) { ok = false; continue; }
            distinct &= !in[d]; in[d] = true;
            selfless &= d != s; live &= !del[d]; ok &= cand[d] || d == s || del[d];
        }
        CHECK_(ok, "a consolidated list has an edge that leads nowhere related");
        CHECK_(live, "a surviving node still points to a deleted one");
        CHECK_(selfless, "consolidation made a node its own neighbor");
        CHECK_(distinct, "consolidation duplicated an edge");
        size_t nc = 0;
        bool nearest_self = false;
        for (size_t i = 0; i < N; ++i) nc += cand[i];
        // a node that could keep an edge keeps one, and nothing closer than all kept ones is lost
        if (nc && prune_to > 0 && pool > nc) {
            CHECK_(l.size() > 0, "consolidation cut all edges of a node with live candidates");
            if (l.size() < prune_to) {
                bool just = true;
                for (size_t i = 0; i < N; ++i) {
                    if (!cand[i] || in[i]) continue;
                    bool dom = false;
                    for (auto r : l) dom |= !cmp(dist<Dist>(v[s], v[i]), dist<Dist>(v[s], v[r])) && cmp(alpha * dist<Dist>(v[r], v[i]), dist<Dist>(v[s], v[i]));
                    just &= dom;
                }
                CHECK_(just, "a live candidate was dropped although nothing kept occludes it");
            }
            bool near = true;
            for (size_t i = 0; i < N; ++i) if (cand[i] && l.size()) near &= !cmp(dist<Dist>(v[s], v[i]), dist<Dist>(v[s], v[l[0]]));
            CHECK_(near, "the nearest live candidate is not the first edge");
        }
    }
    symx_reach("end");
}

template <typename Dist> void lazy(int lo, int hi, float alpha, size_t batch) {
    Data data(N, 1);
    float v[N];
    for (size_t i = 0; i < N; ++i) { v[i] = symx_range_float(lo, hi, "v"); data.set_datum(i, std::vector<float>{v[i]}); }
    bool del[N];
    for (size_t i = 0; i < N; ++i) del[i] = symx::pick(0, 1, "deleted");
    LazyGraph g;
    size_t prune_to = symx::pick(1, DEG, "prune_to");
    size_t pool = symx::pick(0, 1, "pool") ? N : 1;
    auto tp = threads::SequentialThreadPool();
    Dist d{};
    auto is_deleted = [&](const auto& i) { return del[i]; };
    auto c = GraphConsolidator{g, data, tp, d, ConsolidationParameters{batch, prune_to, pool, alpha}};
    c(is_deleted);
    bool visited = true;
    for (size_t i = 0; i < N; ++i) visited &= del[i] || g.known[i];
    CHECK_(visited, "consolidation did not look at a surviving node");
    check<Dist>(g, g.original, g.known, del, v, prune_to, pool, alpha);
}
using DL2 = distance::DistanceL2;
using DIP = distance::DistanceIP;
ENTRY(batch_1) { lazy<DL2>(0, 1, 1.0f, 1); }
ENTRY(batch_3) { lazy<DL2>(0, 1, 2.0f, N - 1); }
ENTRY(batch_all) { lazy<DIP>(-1, 1, 1.0f, 100); }

// The exported function on the real graph type.
ENTRY(real_graph) {
    constexpr size_t M = 3;
    Data data(N, 1);
    float v[N];
    for (size_t i = 0; i < N; ++i) { v[i] = symx_range_float(0, 2, "v"); data.set_datum(i, std::vector<float>{v[i]}); }
    graphs::SimpleGraph<uint32_t, lib::Allocator<uint32_t>> g(N, DEG);
    std::vector<uint32_t> before[N];
    bool del[N], known[N];
    for (size_t i = 0; i < N; ++i) {
        known[i] = true;
        del[i] = i < M ? symx::pick(0, 1, "deleted") : true;
        for (uint32_t j = 0; j < N; ++j) if (j != i && before[i].size() < DEG && symx::pick(0, 1, "edge")) before[i].push_back(j);
        g.replace_node(i, before[i]);
        if (i == M) break;
    }
    auto tp = threads::NativeThreadPool(1);
    consolidate(g, data, tp, DEG, N + 1, 1.0f, DL2(), [&](const auto& i) { return del[i]; });
    check<DL2>(g, before, known, del, v, DEG, N + 1, 1.0f);
    for (size_t i = 0; i < N; ++i) if (del[i]) { auto l = g.get_node(i); bool s = l.size() == before[i].size(); CHECK_(s, "the list of a deleted node was changed"); }
}
