// Recall and the entry point against their definitions.
#include "symx.h"
#include "svs/core/data.h"
#include "svs/core/recall.h"
#include "svs/core/medioid.h"
#include <vector>
#ifndef NPTS
#define NPTS 3
#endif
using namespace svs;
static bool flag_high = false; // ids counted down from the largest
#ifndef IDS
#define IDS 5
#endif
#ifndef RANGE
#define RANGE 3
#endif
template <typename T> using Flat = data::SimpleData<T, Dynamic, lib::Allocator<T>>;
// ids: near zero, or near the top of the type
template <typename I> I id(const char* n) { I b = I(symx::in<uint32_t>(0, IDS, n)); return flag_high ? I(~b) : b; }
// k of n recall: distinct true neighbors found among the first n results
template <typename I, typename J> void recall(size_t q, size_t kmax, size_t nmax, bool unique) {
    flag_high = symx::pick(0, 1, "high ids"); Flat<I> truth(q, kmax); Flat<J> got(q, nmax);
    std::vector<std::vector<I>> t(q); std::vector<std::vector<J>> g(q);
    for (size_t i = 0; i < q; ++i) {
        for (size_t k = 0; k < kmax; ++k) { t[i].push_back(id<I>("truth")); if (unique) for (size_t m = 0; m < k; ++m) symx_assume(t[i][m] != t[i][k]); }
        for (size_t k = 0; k < nmax; ++k) { g[i].push_back(id<J>("result")); if (unique) for (size_t m = 0; m < k; ++m) symx_assume(g[i][m] != g[i][k]); }
        truth.set_datum(i, t[i]); got.set_datum(i, g[i]);
    }
    size_t k = symx::pick(0, kmax + 1, "k"), n = symx::pick(0, nmax + 1, "n");
    size_t kk = k ? k : nmax, nn = n ? n : nmax; // documented defaults
    bool fine = kk <= kmax && nn <= nmax && kk <= nn, threw = false;
    double r = -1;
    try { r = k_recall_at_n(truth, got, k, n); } catch (const ANNException&) { threw = true; }
    CHECK_(threw == !fine, "mismatched shapes were accepted, or matching ones refused");
    if (threw) { symx_reach("refused"); return; }
    size_t count = 0;
    for (size_t i = 0; i < q; ++i) for (size_t a = 0; a < kk; ++a) {
        bool hit = false, before = false;
        for (size_t b = 0; b < nn; ++b) hit |= std::cmp_equal(t[i][a], g[i][b]);
        for (size_t b = 0; b < a; ++b) before |= t[i][a] == t[i][b];
        count += hit && !before;
    }
    CHECK_(r == double(count) / double(kk * q), "the recall is not the fraction of true neighbors found");
    symx_reach("end");
}
ENTRY(recall_one) { recall<uint32_t, uint32_t>(1, 2, 2, false); }
ENTRY(recall_mixed) { recall<uint32_t, uint64_t>(1, 1, 3, true); }
ENTRY(recall_two) { recall<uint32_t, uint32_t>(2, 1, 2, true); }
// every shape: more true neighbors than results and the other way round
ENTRY(recall_shapes) {
    size_t kmax = symx::pick(1, 3, "truth columns"), nmax = symx::pick(1, 3, "result columns");
    Flat<uint32_t> t(1, kmax), g(1, nmax);
    uint32_t first = symx::in<uint32_t>(0, 3, "first result");
    for (size_t i = 0; i < kmax; ++i) t.get_datum(0)[i] = i;
    for (size_t i = 0; i < nmax; ++i) g.get_datum(0)[i] = i ? 10 + i : first;
    size_t k = symx::pick(0, 4, "k"), n = symx::pick(0, 4, "n");
    size_t kk = k ? k : nmax, nn = n ? n : nmax;
    bool threw = false;
    double r = -1;
    try { r = k_recall_at_n(t, g, k, n); } catch (const ANNException&) { threw = true; }
    CHECK_(threw == !(kk <= kmax && nn <= nmax && kk <= nn), "mismatched shapes were accepted, or matching ones refused");
    if (threw) { symx_reach("refused"); return; }
    size_t count = first < kk;
    CHECK_(r == double(count) / double(kk), "the recall is not the fraction of true neighbors found");
    symx_reach("end");
}
ENTRY(recall_rows) {
    Flat<uint32_t> t(symx::pick(1, 3, "truth rows"), 1), g(symx::pick(1, 3, "result rows"), 1);
    for (size_t i = 0; i < t.size(); ++i) t.get_datum(i)[0] = 7;
    for (size_t i = 0; i < g.size(); ++i) g.get_datum(i)[0] = 7;
    bool threw = false; double r = 0;
    try { r = k_recall_at_n(t, g); } catch (const ANNException&) { threw = true; }
    CHECK_(threw == (t.size() != g.size()), "tables of different lengths were compared");
    if (!threw) CHECK_(r == 1, "full recall is not 1");
    symx_reach("end");
}
ENTRY(recall_query_result) {
    QueryResult<uint32_t> res(2, 2); Flat<uint32_t> t(2, 2);
    for (size_t i = 0; i < 2; ++i) for (size_t k = 0; k < 2; ++k) {
        auto id = symx::in<uint32_t>(0, IDS, "id"); res.set(Neighbor<uint32_t>(id, 0.0f), i, k); t.get_datum(i)[k] = id;
        if (k) symx_assume(t.get_datum(i)[0] != id);
    }
    CHECK_(k_recall_at_n(t, res, 1, 1) == 1.0 && k_recall_at_n(t, res, 1, 2) == 1.0, "the ids of a query result are misread");
    symx_reach("end");
}
// The entry point: the vector nearest to the mean. Coordinates are multiples of the number of averaged vectors, so the mean is exact.
struct Double { template <typename D> std::vector<float> operator()(const D& d) const { std::vector<float> v; for (auto x : d) v.push_back(2 * x); return v; } };
template <typename T, typename Pool> void medoid(size_t n, size_t dims, Pool&& pool, bool predicate, bool map, utils::PairwiseSumParameters p) {
    Flat<T> d(n, dims); std::vector<std::vector<int64_t>> v(n);
    std::vector<bool> use(n); size_t used = 0;
    for (size_t i = 0; i < n; ++i) { use[i] = !predicate || symx::pick(0, 1, "use"); used += use[i]; }
    if (!used) return;
    std::vector<int64_t> mean(dims);
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < dims; ++k) {
        int x = symx::in<int8_t>(dims > 1 ? -2 : -RANGE, dims > 1 ? 2 : RANGE, "x"); v[i].push_back(x * int(used)); d.get_datum(i)[k] = T(x * int(used));
        if (use[i]) mean[k] += x;
    }
    auto dist = [&](size_t i) { int64_t s = 0; for (size_t k = 0; k < dims; ++k) s += (v[i][k] - mean[k]) * (v[i][k] - mean[k]); return s; };
    auto pred = [&](size_t i) { return bool(use[i]); };
    std::vector<double> m = map ? utils::compute_medioid(d, pool, pred, Double(), p) : utils::compute_medioid(d, pool, pred, lib::identity(), p);
    bool ok = m.size() == dims;
    for (size_t k = 0; k < dims; ++k) ok &= m[k] == double(mean[k] * (map ? 2 : 1));
    CHECK_(ok, "the mean is not the average of the selected vectors");
    size_t r = map ? utils::find_medioid(d, pool, pred, Double(), p) : utils::find_medioid(d, pool, pred, lib::identity(), p);
    CHECK_(r < n, "the entry point is not a stored vector");
    r = symx_concretize(r);
    CHECK_(use[r], "the entry point is an excluded vector");
    for (size_t i = 0; i < n; ++i) if (use[i]) CHECK_(dist(r) <= dist(i), "a vector nearer to the mean exists");
    symx_reach("end");
}
ENTRY(medoid_line) { threads::SequentialThreadPool pool; medoid<float>(symx::pick(1, NPTS, "n"), 1, pool, false, false, {}); }
ENTRY(medoid_halves) { threads::SequentialThreadPool pool; medoid<float>(symx::pick(1, 4, "n"), 1, pool, false, false, utils::PairwiseSumParameters(symx::pick(1, 2, "linear"), symx::pick(1, 4, "batch"))); }
ENTRY(medoid_some) { threads::SequentialThreadPool pool; medoid<int8_t>(3, 1, pool, true, false, utils::PairwiseSumParameters(2)); }
ENTRY(medoid_mapped) { threads::SequentialThreadPool pool; medoid<float>(2, 2, pool, false, true, {}); }
ENTRY(medoid_plane) { threads::SequentialThreadPool pool; medoid<float>(2 + (NPTS > 3), 2, pool, false, false, {}); }
ENTRY(medoid_threads) { auto pool = threads::NativeThreadPool(2); medoid<float>(3, 1, pool, false, false, utils::PairwiseSumParameters(1, 1)); }
