// Pruning of candidate pools: any data, any sorted pool of distinct ids, any degree.
#include "symx.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/index/vamana/prune.h"
#include <algorithm>
#include <cmath>
#include <vector>
#ifndef NPOOL
#define NPOOL 3
#endif
using namespace svs;
using namespace svs::index::vamana;
using Data = data::SimpleData<float>;
constexpr size_t N = NPOOL + 1;

template <typename Strategy, typename Dist, typename Result> void prune(bool exact, float alpha) {
    using Cmp = typename Dist::compare;
    Cmp cmp{};
    Data data(N, 1);
    float v[N];
    constexpr bool PROG = std::is_same_v<Strategy, ProgressivePruneStrategy>; // divides distances: smaller domain
    for (size_t i = 0; i < N; ++i) { v[i] = (PROG ? symx_range_float(0, 2, "v") : symx_range_float(-3, 4, "v")); data.set_datum(i, std::vector<float>{v[i]}); }
    auto dist = [&](size_t i, size_t j) { return std::is_same_v<Dist, distance::DistanceL2> ? (v[i] - v[j]) * (v[i] - v[j]) : v[i] * v[j]; };
    size_t k = symx::pick(0, NPOOL, "pool");
    size_t maxr = symx::pick(0, NPOOL, "max");
    // the node itself may be among the candidates
    uint32_t self = symx::pick(0, 1, "self") ? 0 : uint32_t(N - 1);
    std::vector<Neighbor<uint32_t>> pool;
    for (size_t i = 0; i < k; ++i) {
        float d = PROG ? symx_range_float(0, 7, "dist") : symx_range_float(std::is_same_v<Dist, distance::DistanceL2> ? 0 : -9, std::is_same_v<Dist, distance::DistanceL2> ? 31 : 22, "dist");
        if (i) symx_assume(!cmp(d, pool[i - 1].distance()));
        pool.emplace_back(uint32_t(i), d);
    }
    std::vector<Result> result;
    // left over from an earlier call
    if constexpr (std::is_integral_v<Result>) { result.push_back(1000); result.push_back(1001); }
    else { result.emplace_back(1000, 0.0f); result.emplace_back(1001, 0.0f); }
    Dist d{};
    heuristic_prune_neighbors(Strategy{}, maxr, alpha, data, data::GetDatumAccessor(), d, size_t(self), lib::as_const_span(pool), result);
    CHECK_(result.size() <= maxr, "more edges than requested");
    auto idof = [](const Result& r) -> size_t { if constexpr (std::is_integral_v<Result>) return r; else return r.id(); };
    bool in[N] = {};
    bool distinct = true, member = true;
    for (auto& r : result) {
        size_t id = idof(r);
        if (id >= k) { member = false; continue; }
        distinct &= !in[id]; in[id] = true;
        if constexpr (!std::is_integral_v<Result>) { member &= r.distance() == pool[id].distance(); }
    }
    CHECK_(member, "an edge is not among the candidates");
    CHECK_(distinct, "an edge is returned twice");
    if (self < k) CHECK_(!in[self], "a node became its own neighbor");
    size_t first = (self == 0) ? 1 : 0;
    if (first < k && maxr > 0) CHECK_(in[first] && idof(result[0]) == first, "the nearest candidate is not the first edge");
    // MRNG with factor a over the pool
    auto mrng = [&](float a, std::vector<size_t>& out) {
        for (size_t i = 0; i < k && out.size() < maxr; ++i) {
            if (i == self) continue;
            bool dom = false;
            for (auto s : out) { dom |= bool(cmp(a * dist(s, i), pool[i].distance())); }
            if (!dom) out.push_back(i);
        }
    };
    std::vector<size_t> ref;
    mrng(exact ? alpha : 1.0f, ref);
    bool prefix = ref.size() <= result.size();
    for (size_t i = 0; i < ref.size() && i < result.size(); ++i) { prefix &= (idof(result[i]) == ref[i]); }
    CHECK_(prefix, "an edge that nothing nearer occludes is missing");
    if (exact) CHECK_(ref.size() == result.size(), "an edge occluded by a nearer one was kept");
    if (result.size() < maxr) {
        bool just = true;
        for (size_t i = 0; i < k; ++i) {
            if (i == self || in[i]) continue;
            bool dom = false;
            for (auto& r : result) { size_t id = idof(r); if (id < i) dom |= bool(cmp(alpha * dist(id, i), pool[i].distance())); }
            just &= dom;
        }
        CHECK_(just, "a candidate was dropped although nothing retained occludes it");
    }
    symx_reach("end");
    if (result.size() == 0) symx_reach("empty");
    if (result.size() == maxr && maxr < k) symx_reach("full");
}
using DL2 = distance::DistanceL2;
using DIP = distance::DistanceIP;
ENTRY(iterative_l2_1) { prune<IterativePruneStrategy, DL2, uint32_t>(true, 1.0f); }
ENTRY(iterative_l2_2) { prune<IterativePruneStrategy, DL2, uint32_t>(false, 2.0f); }
ENTRY(iterative_ip_1) { prune<IterativePruneStrategy, DIP, uint32_t>(true, 1.0f); }
ENTRY(iterative_ip_075) { prune<IterativePruneStrategy, DIP, Neighbor<uint32_t>>(false, 0.75f); }
ENTRY(progressive_l2_1) { prune<ProgressivePruneStrategy, DL2, uint32_t>(true, 1.0f); }
ENTRY(progressive_l2_2) { prune<ProgressivePruneStrategy, DL2, Neighbor<uint32_t>>(false, 2.0f); }
ENTRY(legacy_l2_2) { prune<LegacyPruneStrategy, DL2, uint32_t>(true, 2.0f); }
ENTRY(legacy_ip_1) { prune<LegacyPruneStrategy, DIP, uint32_t>(true, 1.0f); }
