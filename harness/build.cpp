// Graph construction: any small dataset, parameters, initial graph, and (par_*) any interleaving of two workers.
#include "symx.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/vamana_build.h"
#include "svs/lib/threads.h"
#include <vector>
#ifndef NN
#define NN 3
#endif
#ifndef INITIAL
#define INITIAL 1
#endif
using namespace svs;
using namespace svs::index::vamana;
using Data = data::SimpleData<float>;
using Graph = graphs::SimpleGraph<uint32_t, lib::Allocator<uint32_t>>;
constexpr size_t N = NN;
using DL2 = distance::DistanceL2;
using DIP = distance::DistanceIP;

template <typename G> void well_formed(const G& g, size_t n, size_t deg) {
    bool bounded = true, exist = true, distinct = true, selfless = true;
    CHECK_(g.n_nodes() == n && g.max_degree() == deg, "construction changed the shape of the graph");
    for (size_t i = 0; i < n; ++i) {
        auto l = g.get_node(i);
        bounded &= l.size() <= deg;
        if (!bounded) break;
        for (size_t a = 0; a < l.size(); ++a) {
            exist &= l[a] < n; selfless &= l[a] != i;
            for (size_t b = 0; b < a; ++b) distinct &= l[a] != l[b];
        }
    }
    CHECK_(bounded, "a node has more edges than the maximum degree");
    CHECK_(exist, "an edge leads to a node that does not exist");
    CHECK_(selfless, "a node is its own neighbor");
    CHECK_(distinct, "a node has the same edge twice");
}
template <typename G> bool has(const G& g, size_t a, size_t b) { for (auto x : g.get_node(a)) if (x == b) return true; return false; }

struct Setup {
    Data data{N, 1};
    size_t deg = symx::pick(1, N - 1, "degree");
    Graph g{N, deg};
    VamanaBuildParameters p;
    uint32_t ep = symx::pick(0, 1, "entry") ? 0 : N - 1;
    bool initial = false;
    Setup(int lo, int hi, float alpha) {
        for (size_t i = 0; i < N; ++i) data.set_datum(i, std::vector<float>{symx_range_float(lo, hi, "v")});
        p = VamanaBuildParameters(alpha, deg, symx::pick(1, 2, "window"), symx::pick(0, 1, "pool") ? 2 : 2 * N, symx::pick(1, deg, "prune_to"), symx::pick(0, 1, "history"));
    }
    void init() {
        if (!INITIAL) return;
        for (uint32_t i = 0; i < N; ++i) {
            std::vector<uint32_t> l;
            for (uint32_t j = 0; j < N; ++j) if (j != i && l.size() < deg && symx::pick(0, 1, "edge")) l.push_back(j);
            initial |= !l.empty();
            g.replace_node(i, l);
        }
    }
};

template <typename Dist> void whole(int lo, int hi, float alpha) {
    Setup s(lo, hi, alpha);
    auto pool = threads::SequentialThreadPool();
    auto b = VamanaBuilder(s.g, s.data, Dist(), s.p, pool);
    b.construct(alpha, s.ep);
    well_formed(s.g, N, s.deg);
    bool out = true;
    for (size_t i = 0; i < N; ++i) out &= s.g.get_node_degree(i) > 0;
    CHECK_(out, "a node is left without edges");
    symx_reach("end");
}
ENTRY(construct_l2) { whole<DL2>(0, 2, 2.0f); }
ENTRY(construct_ip) { whole<DIP>(-1, 1, 1.0f); }

// One batch over part of the nodes of any graph, as additions to a mutable index do.
template <typename Dist> void batch(int lo, int hi, float alpha) {
    Setup s(lo, hi, alpha);
    s.init();
    auto pool = threads::SequentialThreadPool();
    auto b = VamanaBuilder(s.g, s.data, Dist(), s.p, pool);
    std::vector<uint32_t> range;
    if (symx::pick(0, 1, "first")) range.push_back(0);
    range.push_back(N - 1);
    auto timer = lib::Timer();
    std::vector<std::vector<uint32_t>> before(N);
    for (size_t i = 0; i < N; ++i) { auto l = s.g.get_node(i); before[i].assign(l.begin(), l.end()); }
    b.generate_neighbors(threads::IteratorPair{range.begin(), range.end()}, alpha, {s.ep}, timer);
    well_formed(s.g, N, s.deg);
    bool untouched = true;
    for (size_t i = 0; i < N; ++i) {
        if (i == N - 1 || (i == 0 && range.size() == 2)) continue;
        auto l = s.g.get_node(i);
        untouched &= std::vector<uint32_t>(l.begin(), l.end()) == before[i];
    }
    CHECK_(untouched, "generating neighbors changed the list of a node outside of the batch");
    std::vector<std::vector<uint32_t>> mid(N);
    for (size_t i = 0; i < N; ++i) { auto l = s.g.get_node(i); mid[i].assign(l.begin(), l.end()); }
    b.add_reverse_edges(threads::IteratorPair{range.begin(), range.end()}, alpha, timer);
    well_formed(s.g, N, s.deg);
    // an edge of the batch is answered by its reverse unless the target's list had no room
    bool answered = true, kept = true, related = true;
    for (auto a : range) for (auto o : mid[a]) {
        size_t incoming = mid[o].size();
        for (auto r : range) { bool to = false; for (auto x : mid[r]) to |= x == o; if (to && !std::count(mid[o].begin(), mid[o].end(), r)) ++incoming; }
        if (incoming < s.deg) answered &= has(s.g, o, a);
    }
    for (size_t i = 0; i < N; ++i) {
        size_t incoming = mid[i].size();
        for (auto r : range) { bool to = false; for (auto x : mid[r]) to |= x == i; if (to && !std::count(mid[i].begin(), mid[i].end(), r)) ++incoming; }
        if (incoming < s.deg) for (auto x : mid[i]) kept &= has(s.g, i, x);
        for (auto x : s.g.get_node(i)) {
            bool was = std::count(mid[i].begin(), mid[i].end(), x) > 0;
            for (auto r : range) if (r == x) was |= std::count(mid[r].begin(), mid[r].end(), uint32_t(i)) > 0;
            related &= was;
        }
        if (!mid[i].empty()) CHECK_(s.g.get_node_degree(i) > 0, "adding reverse edges left a node without edges");
    }
    CHECK_(answered, "a reverse edge is missing although there was room");
    CHECK_(kept, "an edge was lost although there was room");
    CHECK_(related, "an edge appeared that is no reverse edge");
    symx_reach("end");
    if (s.initial) symx_reach("extension");
}
ENTRY(batch_l2) { batch<DL2>(0, 1, 1.0f); }

// A pool of two threads, every interleaving.
struct Pool2 {
    struct Job { threads::FunctionRef f; uint64_t tid; };
    static constexpr size_t size() { return 2; }
    static void entry(void* p) { auto* j = static_cast<Job*>(p); j->f(j->tid); }
    static void run(threads::FunctionRef f) {
        Job j{f, 1};
        auto t = symx_thread_spawn(entry, &j);
        f(0);
        symx_thread_join(t);
    }
};
template <typename Dist> void par(size_t deg, size_t prune_to, const std::vector<float>& v, const std::vector<std::vector<uint32_t>>& lists, bool generate) {
    size_t n = v.size();
    Data data(n, 1);
    for (size_t i = 0; i < n; ++i) data.set_datum(i, std::vector<float>{v[i]});
    Graph g(n, deg);
    for (size_t i = 0; i < n; ++i) g.replace_node(i, lists[i]);
    Pool2 pool;
    auto b = VamanaBuilder(g, data, Dist(), VamanaBuildParameters(1.0f, deg, 2, 2 * n, prune_to, true), pool);
    std::vector<uint32_t> range;
    for (uint32_t i = 0; i < n; ++i) range.push_back(i);
    auto timer = lib::Timer();
    if (generate) b.generate_neighbors(threads::IteratorPair{range.begin(), range.end()}, 1.0f, {0}, timer);
    else b.add_reverse_edges(threads::IteratorPair{range.begin(), range.end()}, 1.0f, timer);
    well_formed(g, n, deg);
    if (!generate && deg >= n) {
        bool all = true;
        for (size_t i = 0; i < n; ++i) for (auto x : lists[i]) all &= has(g, x, i) && has(g, i, x);
        CHECK_(all, "an edge or reverse edge was lost between threads");
    }
    symx_reach("end");
}
// two workers add reverse edges to the same node, which has room
ENTRY(par_room) { par<DL2>(4, 4, {0, 1, 2, 4}, {{1}, {2}, {1}, {1}}, false); }
// the common target overflows
ENTRY(par_overflow) { par<DL2>(2, 1, {0, 1, 2, 4}, {{1}, {2}, {1}, {1}}, false); }
ENTRY(par_full) { par<DL2>(1, 1, {0, 1, 2}, {{1}, {0}, {1}}, false); }
ENTRY(par_generate) { par<DL2>(2, 2, {0, 1, 2}, {{1}, {2}, {0}}, true); }
