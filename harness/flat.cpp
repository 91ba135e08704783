// Exhaustive search: any distances, predicates, result sizes and batch sizes.
#include "symx.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/index/flat/flat.h"
#include <algorithm>
#include <vector>
#ifndef NDATA
#define NDATA 4
#endif
#ifndef FULL
#define FULL 0
#endif
using namespace svs;
using namespace svs::index;
using Plain = data::SimpleData<float>;
constexpr size_t N = NDATA, Q = 3;
static float table[Q][N];
// any finite distance but the largest, which marks missing results
static float bounded() { float f = symx::finite("distance"); symx_assume(f < 3.4e38f && f > -3.4e38f); return f; }
static size_t id_of(float x, size_t bound) { size_t i = size_t(x); CHECK_(i < bound, "a distance is computed with something that is no vector"); return i; }

template <typename Cmp> struct Table {
    using compare = Cmp;
    static constexpr bool implicit_broadcast = false;
    static constexpr bool must_fix_argument = false;
    template <typename A, typename B> float compute(const A& a, const B& b) const { return table[id_of(a[0], Q)][id_of(b[0], N)]; }
};
// remembers the query it was prepared with
template <typename Cmp> struct Stateful {
    using compare = Cmp;
    static constexpr bool implicit_broadcast = false;
    static constexpr bool must_fix_argument = true;
    size_t q = 99;
    template <typename A> void fix_argument(const A& a) { q = id_of(a[0], Q); }
    template <typename B> float compute(const B& b) const { CHECK_(q < Q, "a distance functor is used before it was given its query"); return table[q][id_of(b[0], N)]; }
};

template <typename Cmp> void check(const QueryResult<size_t>& r, size_t nq, size_t k, const bool* allowed, size_t nd) {
    Cmp cmp{};
    bool exist = true, distinct = true, truth = true, sorted = true, best = true, full = true;
    size_t elig = 0;
    for (size_t i = 0; i < nd; ++i) elig += allowed[i];
    for (size_t q = 0; q < nq; ++q) {
        bool seen[N] = {};
        size_t found = 0;
        for (size_t j = 0; j < k; ++j) {
            size_t e = symx_concretize(r.index(q, j));
            if (e == size_t(-1)) continue;
            exist &= e < nd && allowed[e < nd ? e : 0] && found == j;
            if (e >= nd) break;
            distinct &= !seen[e];
            seen[e] = true;
            ++found;
            truth &= r.distance(q, j) == table[q][e];
            if (j) sorted &= !cmp(r.distance(q, j), r.distance(q, j - 1));
        }
        full &= found == std::min(k, elig);
        if (found && exist) for (size_t i = 0; i < nd; ++i) if (allowed[i] && !seen[i]) best &= !cmp(table[q][i], r.distance(q, found - 1));
    }
    CHECK_(exist, "exhaustive search returns an id that does not exist or is excluded");
    CHECK_(distinct, "exhaustive search returns an id twice");
    CHECK_(truth, "exhaustive search reports a distance that does not belong to the id");
    CHECK_(sorted, "exhaustive search results are not ordered");
    CHECK_(full, "exhaustive search does not fill the result");
    CHECK_(best, "exhaustive search misses a nearest vector");
}
static Plain numbered(size_t n) { Plain p(n, 1); for (size_t i = 0; i < n; ++i) p.set_datum(i, std::vector<float>{float(i)}); return p; }
template <template <typename> typename D, typename Cmp> void whole(size_t nd, size_t nq, size_t maxk, size_t threads, bool preds, bool values) {
    for (size_t q = 0; q < nq; ++q) for (size_t i = 0; i < nd; ++i) table[q][i] = values ? bounded() : float((q * 5 + i * 3) % 4);
    size_t k = symx::pick(1, maxk, "k");
    auto idx = flat::FlatIndex(numbered(nd), D<Cmp>(), threads);
    auto queries = numbered(nq);
    flat::FlatParameters p(symx::pick(0, nd + 1, "data batch"), symx::pick(0, nq + 1, "query batch"));
    QueryResult<size_t> r(nq, k);
    bool allowed[N + 1];
    for (size_t i = 0; i < N; ++i) allowed[i] = preds ? bool(symx::pick(0, 1, "allowed")) : true;
    auto view = data::ConstSimpleDataView<float>(queries.data(), nq, 1);
    if (preds) idx.search(r.view(), view, p, [&](size_t i) { CHECK_(i < nd, "the predicate is asked about a vector that does not exist"); return allowed[i]; });
    else idx.search(r.view(), view, p);
    check<Cmp>(r, nq, k, allowed, nd);
    symx_reach("end");
}
// every order of the distances
ENTRY(order_less) { whole<Table, std::less<>>(3 + FULL, 1, 4, 1, true, true); }
ENTRY(order_greater) { whole<Table, std::greater<>>(3, 1, 3, 1, true, true); }
ENTRY(order_queries) { whole<Stateful, std::less<>>(2 + FULL, 2, 2, 1, false, true); }
// every shape
static void shapes(size_t threads) {
    size_t nd = symx::pick(0, N, "vectors"), nq = symx::pick(0, Q, "queries");
    whole<Stateful, std::less<>>(nd, nq, 2, threads, false, false);
}
ENTRY(shape_less) { shapes(1); }
ENTRY(shape_threads) { whole<Stateful, std::less<>>(2, 2, 1, 2, false, false); }

// the two inserters against a sorted reference
template <typename Inserter, typename Cmp> void inserter(Cmp cmp) {
    constexpr size_t M = 4;
    size_t k = symx::pick(1, 3, "k"), m = symx::pick(0, M, "m");
    std::vector<Neighbor<size_t>> buf(k + 2, Neighbor<size_t>{77, 5.0f});
    float d[M];
    Inserter ins{buf.begin() + 1, buf.begin() + 1 + k, cmp};
    ins.prepare();
    for (size_t i = 0; i < m; ++i) { d[i] = bounded(); ins.insert(Neighbor<size_t>{i, d[i]}); }
    ins.cleanup();
    CHECK_(buf[0].id() == 77 && buf[k + 1].id() == 77, "an inserter wrote outside its range");
    bool seen[M] = {}, good = true, best = true;
    for (size_t j = 0; j < k; ++j) {
        auto n = buf[1 + j];
        if (j >= m) { good &= n.id() == size_t(-1); continue; }
        size_t i = symx_concretize(n.id());
        good &= i < m && !seen[i < M ? i : 0];
        if (i >= m) break;
        seen[i] = true;
        good &= n.distance() == d[i];
        if (j) good &= !cmp(n, buf[j]);
    }
    CHECK_(good, "an inserter holds something that was not inserted, or out of order");
    if (good) for (size_t i = 0; i < m; ++i) if (!seen[i]) best &= !cmp(Neighbor<size_t>{i, d[i]}, buf[k]);
    CHECK_(best, "an inserter lost one of the best candidates");
    symx_reach("end");
}
using It = std::vector<Neighbor<size_t>>::iterator;
ENTRY(linear_less) { inserter<flat::LinearInserter<It, std::less<>>>(std::less<>()); }
ENTRY(linear_greater) { inserter<flat::LinearInserter<It, std::greater<>>>(std::greater<>()); }
ENTRY(heap_less) { inserter<flat::HeapInserter<It, std::less<>>>(std::less<>()); }
ENTRY(heap_greater) { inserter<flat::HeapInserter<It, std::greater<>>>(std::greater<>()); }
// real distances: the cosine needs the query's norm
template <typename Dist> void real() {
    Plain d(3, 2), q(2, 2);
    float v[3][2] = {{1, 0}, {1, 1}, {0, 2}}, w[2][2] = {{2, 1}, {1, 3}};
    for (int i = 0; i < 3; ++i) d.set_datum(i, std::vector<float>{v[i][0], v[i][1]});
    for (int i = 0; i < 2; ++i) q.set_datum(i, std::vector<float>{w[i][0], w[i][1]});
    auto idx = flat::FlatIndex(std::move(d), Dist(), 1);
    flat::FlatParameters p(symx::pick(0, 3, "data batch"), symx::pick(0, 3, "query batch"));
    QueryResult<size_t> r(2, 3);
    idx.search(r.view(), data::ConstSimpleDataView<float>(q.data(), 2, 2), p);
    bool good = true;
    auto cmp = distance::comparator(Dist());
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) {
        size_t e = r.index(i, j);
        if (e > 2) { good = false; break; }
        Dist f;
        std::span<const float> a(w[i], 2), b(v[e], 2);
        distance::maybe_fix_argument(f, a);
        good &= r.distance(i, j) == distance::compute(f, a, b);
        if (j) good &= !cmp(r.distance(i, j), r.distance(i, j - 1));
    }
    CHECK_(good, "exhaustive search reports other distances than the distance functor");
    symx_reach("end");
}
ENTRY(real_l2) { real<distance::DistanceL2>(); }
ENTRY(real_cosine) { real<distance::DistanceCosineSimilarity>(); }
