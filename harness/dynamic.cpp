// The mutable index: histories of additions, deletions, consolidations and compactions.
#include "symx.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/dynamic_index.h"
#include <map>
#include <vector>
#ifndef STEPS
#define STEPS 3
#endif
#ifndef RANGE
#define RANGE 15
#endif
using namespace svs;
using namespace svs::index::vamana;
using Alloc = data::Blocked<lib::Allocator<float>>;
using Data = data::SimpleData<float, Dynamic, Alloc>;
using Plain = data::SimpleData<float>;
using Graph = graphs::SimpleBlockedGraph<uint32_t>;
// A vector has two components: the first, concrete, determines all distances; the second is an
// arbitrary symbolic value that has to follow the vector wherever the index moves it.
struct FirstOnly {
    using compare = std::less<>;
    static constexpr bool implicit_broadcast = false;
    static constexpr bool must_fix_argument = false;
    template <typename A, typename B> float compute(const A& a, const B& b) const { float d = a[0] - b[0]; return d * d; }
};
template <> struct svs::index::vamana::PruneStrategy<FirstOnly> { using type = ProgressivePruneStrategy; };
using DL2 = FirstOnly;
// The entry point of two-component data is the medioid by the first component. (The default would
// also take the symbolic component into account.)
namespace svs::index::vamana::extensions {
template <threads::ThreadPool Pool, typename Predicate>
size_t svs_invoke(svs::tag_t<compute_entry_point>, const Data& data, Pool& pool, Predicate&& predicate) {
    if (data.dimensions() == 1) return utils::find_medioid(data, pool, predicate);
    auto first = Data(data.size(), 1);
    for (size_t i = 0; i < data.size(); ++i) first.set_datum(i, std::vector<float>{data.get_datum(i)[0]});
    return utils::find_medioid(first, pool, predicate);
}
}
static uint32_t word(float f) { uint32_t b; __builtin_memcpy(&b, &f, 4); return b; }
static std::vector<float> vec(float v, float payload, size_t dims = 2) { std::vector<float> r(dims, payload); r[0] = v; return r; }
template <typename F> static bool refused(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }

template <typename Index> struct World {
    Index idx;
    std::map<size_t, float> live, pay;
    size_t slots;    // internal slots in use, to bound internal ids
    bool consolidated = true;
    float query = 0.0f;
    float next = 4.0f;

    void check() {
        CHECK_(idx.size() == live.size(), "the index reports the wrong size");
        bool known = true, whole = true;
        for (size_t e : {10, 20, 30, 40, 50}) {
            bool l = live.count(e);
            known &= idx.has_id(e) == l;
            if (!l) known &= refused([&] { idx.translate_external_id(e); });
        }
        CHECK_(known, "an id is known that was deleted or never added, or a live id is unknown");
        if (!known) return;
        std::vector<bool> used(64, false);
        bool own = true;
        for (auto [e, v] : live) {
            auto i = idx.translate_external_id(e);
            own &= i < 64 && !used[i];
            if (!own) break;
            used[i] = true;
            own &= idx.translate_internal_id(i) == e;
            auto got = idx.get_datum(e);
            whole &= got[0] == v && word(got[1]) == word(pay[e]);
        }
        CHECK_(own, "two ids share a slot");
        CHECK_(whole, "an id has another vector than the one added with it");
        auto ids = idx.external_ids();
        bool listed = ids.size() == live.size();
        for (auto e : ids) listed &= live.count(e) == 1;
        CHECK_(listed, "external_ids() differs from the live ids");
        auto& g = idx.view_graph();
        bool edges = true;
        for (auto [e, v] : live) {
            auto l = g.get_node(idx.translate_external_id(e));
            edges &= l.size() <= g.max_degree();
            if (!edges) break;
            for (size_t a = 0; a < l.size(); ++a) {
                edges &= l[a] != idx.translate_external_id(e) && l[a] < g.n_nodes();
                if (consolidated && edges) edges &= l[a] < 64 && used[l[a]];
                for (size_t b = 0; b < a; ++b) edges &= l[a] != l[b];
            }
        }
        CHECK_(edges, "the graph of the live vectors is broken");
    }
    template <typename Result> void check_result(const Result& r, size_t k, bool exact) {
        size_t found = 0;
        bool exist = true, distinct = true, truth = true, sorted = true;
        std::map<size_t, int> seen;
        for (size_t j = 0; j < k; ++j) {
            size_t e = r.index(0, j);
            if (e == size_t(-1)) continue;
            exist &= live.count(e) == 1 && found == j;
            if (!exist) break;
            distinct &= seen[e]++ == 0;
            ++found;
            float v = live[e], d = (v - query) * (v - query);
            truth &= r.distance(0, j) == d;
            if (j) sorted &= r.distance(0, j - 1) <= r.distance(0, j);
        }
        CHECK_(exist, "search returns an id that is not live");
        CHECK_(distinct, "search returns an id twice");
        CHECK_(truth, "search reports a distance that does not belong to the id");
        CHECK_(sorted, "search results are not ordered");
        if (exact && exist) {
            CHECK_(found == std::min(k, live.size()), "exhaustive search does not fill the result");
            bool best = true;
            for (auto [e, v] : live) if (!seen.count(e) && found) best &= (v - query) * (v - query) >= r.distance(0, found - 1);
            CHECK_(best, "exhaustive search misses a nearest vector");
        } else if (exist) CHECK_(live.empty() || found >= 1 || !consolidated, "search finds nothing although there are live vectors");
    }
    void search(size_t k) {
        Plain q(1, 2);
        q.set_datum(0, vec(query, 0));
        auto r = QueryResult<size_t>(1, k);
        idx.search(r.view(), q, VamanaSearchParameters(SearchBufferConfig(2), false, 1, 1));
        check_result(r, k, false);
        auto r2 = QueryResult<size_t>(1, k);
        idx.exhaustive_search(data::ConstSimpleDataView<float>(q.data(), 1, 2), k, r2.view());
        check_result(r2, k, true);
    }
    // every live vector is still there
    void all_found() {
        size_t k = live.size();
        if (!k) return;
        Plain q(1, 2);
        q.set_datum(0, vec(query, 0));
        auto r = QueryResult<size_t>(1, k);
        idx.exhaustive_search(data::ConstSimpleDataView<float>(q.data(), 1, 2), k, r.view());
        check_result(r, k, true);
    }
    template <typename V> void add(std::vector<size_t> ids, V&& value, bool wrong_dims = false) {
        size_t dims = wrong_dims ? 3 : 2;
        Plain p(ids.size(), dims);
        bool ok = !wrong_dims || ids.empty();
        std::vector<float> vs, ps;
        for (size_t i = 0; i < ids.size(); ++i) {
            vs.push_back(value());
            ps.push_back(symx::rawf("payload"));
            p.set_datum(i, vec(vs[i], ps[i], dims));
            ok = ok && !live.count(ids[i]);
            for (size_t j = 0; j < i; ++j) ok = ok && ids[i] != ids[j];
        }
        bool r = refused([&] { idx.add_points(p, ids); });
        CHECK_(r == !ok, ok ? "a valid addition was refused" : "an invalid addition was accepted");
        if (ok) for (size_t i = 0; i < ids.size(); ++i) { live[ids[i]] = vs[i]; pay[ids[i]] = ps[i]; }
        else all_found();
        symx_reach(ok ? "added" : "refused");
    }
    void remove(std::vector<size_t> ids) {
        bool ok = true;
        for (size_t i = 0; i < ids.size(); ++i) { ok = ok && live.count(ids[i]); for (size_t j = 0; j < i; ++j) ok = ok && ids[i] != ids[j]; }
        bool r = refused([&] { idx.delete_entries(ids); });
        CHECK_(r == !ok, ok ? "a valid deletion was refused" : "an invalid deletion was accepted");
        if (ok) for (auto e : ids) live.erase(e);
        else all_found();
        if (ok && !ids.empty()) { consolidated = false; symx_reach("deleted"); }
    }
    template <typename V> void step(V&& value) {
        unsigned o = symx::pick(0, 6, "op");
        if (o == 0) add({symx::pick(0, 1, "new") ? 30u : 10u}, value);
        else if (o == 1) add({40, symx::pick(0, 1, "repeat") ? 40u : 50u}, value);
        else if (o == 2) remove({symx::pick(0, 1, "which") ? 10u : 20u});
        else if (o == 3) {
            unsigned kind = symx::pick(0, 4, "kind");
            if (kind == 0) remove({});
            else if (kind == 1) remove({20, 20});
            else if (kind == 2) remove({20, 30});
            else if (kind == 3) remove({10, 60});    // one of them was never added
            else remove({60, 10});
        }
        else if (o == 4) { if (live.empty()) return; idx.consolidate(); consolidated = true; symx_reach("consolidated"); }
        else if (o == 5) { if (live.empty()) return; idx.compact(symx::pick(1, 2, "batch")); symx_reach("compacted"); }
        else add({}, value, symx::pick(0, 1, "dims"));
    }
};
template <typename V> auto built(V&& value, unsigned n, size_t deg, size_t blockvec, size_t prune = 0) {
    Data d(n, 2, Alloc(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(blockvec)}));
    std::vector<size_t> ids;
    std::map<size_t, float> live, pay;
    for (size_t i = 0; i < n; ++i) {
        float v = value(), f = symx::rawf("payload");
        d.set_datum(i, vec(v, f));
        ids.push_back(10 * (i + 1));
        live[ids.back()] = v;
        pay[ids.back()] = f;
    }
    auto p = VamanaBuildParameters(1.0f, deg, 2, 8, prune ? prune : deg, true);
    auto idx = MutableVamanaIndex<Graph, Data, DL2>(p, std::move(d), ids, DL2(), 1);
    return World<decltype(idx)>{std::move(idx), live, pay, n};
}
static float counter() { static float c = 0; return c += 1; }
ENTRY(histories) {
    auto w = built(counter, 3, 2, 4);
    w.check();
    for (int s = 0; s < STEPS; ++s) { w.step(counter); w.check(); }
    w.search(symx::pick(0, 1, "k") ? 1 : 4);
    symx_reach("end");
}
// after deleting the middle and the entry point, with and without consolidation and compaction
ENTRY(deletions) {
    auto w = built(counter, 4, 2, 4);
    for (size_t e : {10, 20, 30, 40}) if (symx::pick(0, 1, "delete")) w.remove({e});
    w.check();
    if (w.live.empty()) return;
    w.search(3);
    if (symx::pick(0, 1, "consolidate")) { w.idx.consolidate(); w.consolidated = true; w.check(); }
    if (symx::pick(0, 1, "compact")) { w.idx.compact(symx::pick(1, 3, "batch")); w.check(); }
    w.search(3);
    if (symx::pick(0, 1, "add")) { w.add({50, 10}, counter); w.check(); w.search(4); }
    symx_reach("end");
}
// arbitrary distances between any two vectors and to the query, ties included
static float dist_table[5][5];
struct TableDistance {
    using compare = std::less<>;
    static constexpr bool implicit_broadcast = false;
    static constexpr bool must_fix_argument = false;
    template <typename A, typename B> float compute(const A& a, const B& b) const {
        size_t x = size_t(a[0]), y = size_t(b[0]);
        CHECK_(x < 5 && y < 5, "a distance is computed with something that is no vector");
        return dist_table[x][y];
    }
};
template <> struct svs::index::vamana::PruneStrategy<TableDistance> { using type = IterativePruneStrategy; };
ENTRY(values) {
    // 0: the query; vector i has value i
    for (int i = 0; i < 5; ++i) for (int j = 0; j < i; ++j) dist_table[i][j] = dist_table[j][i] = symx_range_float(0, RANGE, "distance");
    unsigned n = 3;
    Data d(n, 1, Alloc(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(2)}));
    std::vector<size_t> ids;
    for (size_t i = 0; i < n; ++i) { d.set_datum(i, std::vector<float>{float(i + 1)}); ids.push_back(10 * (i + 1)); }
    auto p = VamanaBuildParameters(1.0f, 1, 2, 8, 1, true);
    auto idx = MutableVamanaIndex<Graph, Data, TableDistance>(p, std::move(d), ids, TableDistance(), 1);
    unsigned gone = symx::pick(0, 1, "which") ? 1 : 3;
    CHECK_(!refused([&] { idx.delete_entries(std::vector<size_t>{gone * 10}); }), "a valid deletion was refused");
    bool cons = symx::pick(0, 1, "consolidate");
    if (cons) idx.consolidate();
    Plain more(1, 1);
    more.set_datum(0, std::vector<float>{4});
    CHECK_(!refused([&] { idx.add_points(more, std::vector<size_t>{40}); }), "a valid addition was refused");
    bool kept = true;
    for (unsigned i = 1; i <= 4; ++i) {
        kept &= idx.has_id(10 * i) == (i != gone);
        if (kept && i != gone) kept &= idx.get_datum(10 * i)[0] == float(i);
    }
    CHECK_(kept, "an id has another vector than the one added with it");
    if (!kept) return;
    Plain q(1, 1);
    q.set_datum(0, std::vector<float>{0});
    for (bool exact : {false, true}) {
        size_t k = 2;
        auto r = QueryResult<size_t>(1, k);
        if (exact) idx.exhaustive_search(data::ConstSimpleDataView<float>(q.data(), 1, 1), k, r.view());
        else idx.search(r.view(), q, VamanaSearchParameters(SearchBufferConfig(2), false, 1, 1));
        bool live = true, truth = true, sorted = true, best = true;
        size_t found = 0;
        std::map<size_t, int> seen;
        for (size_t j = 0; j < k; ++j) {
            size_t e = r.index(0, j);
            if (e == size_t(-1)) continue;
            live &= e % 10 == 0 && e / 10 >= 1 && e / 10 <= 4 && e / 10 != gone && found == j && seen[e]++ == 0;
            ++found;
            if (!live) break;
            truth &= r.distance(0, j) == dist_table[0][e / 10];
            if (j) sorted &= r.distance(0, j - 1) <= r.distance(0, j);
        }
        CHECK_(live, "search returns an id that is not live, or twice");
        CHECK_(truth, "search reports a distance that does not belong to the id");
        CHECK_(sorted, "search results are not ordered");
        if (exact && live) {
            CHECK_(found == k, "exhaustive search does not fill the result");
            for (size_t i = 1; i <= 4; ++i) if (i != gone && !seen.count(10 * i)) best &= dist_table[0][i] >= r.distance(0, k - 1);
            CHECK_(best, "exhaustive search misses a nearest vector");
        }
    }
    symx_reach("end");
}
// consolidating an index all of whose vectors have been deleted
ENTRY(all_deleted) {
    auto w = built(counter, 2, 1, 3);
    w.remove({10, 20});
    w.check();
    w.idx.consolidate();
    w.consolidated = true;
    w.check();
    w.add({30}, counter);
    w.check();
    symx_reach("end");
}
// an index assembled from an existing graph
ENTRY(assembled) {
    Data d(3, 2);
    Graph g(2, 3);
    std::vector<size_t> ids{10, 20, 30};
    std::map<size_t, float> live, pay;
    for (uint32_t i = 0; i < 3; ++i) { float f = symx::rawf("payload"); live[ids[i]] = float(i); pay[ids[i]] = f; d.set_datum(i, vec(float(i), f)); }
    g.replace_node(0, std::vector<uint32_t>{1}); g.replace_node(1, std::vector<uint32_t>{0, 2}); g.replace_node(2, std::vector<uint32_t>{1});
    MutableVamanaIndex<Graph, Data, DL2> idx(std::move(g), std::move(d), symx::pick(0, 2, "entry"), DL2(), ids, 1);
    World<decltype(idx)> w{std::move(idx), live, pay, 3};
    w.check();
    if (symx::pick(0, 1, "alpha")) w.idx.set_alpha(1.0f);
    for (int s = 0; s < 2; ++s) { w.step(counter); w.check(); }
    w.search(4);
    symx_reach("end");
}
// reconstruction of vectors by id
ENTRY(reconstruct) {
    auto w = built(counter, 3, 2, 3);
    w.remove({20});
    if (symx::pick(0, 1, "compact")) { w.idx.consolidate(); w.idx.compact(2); }
    std::vector<uint64_t> ids;
    unsigned n = symx::pick(0, 2, "n");
    bool ok = true;
    for (unsigned i = 0; i < n; ++i) { ids.push_back(10 * symx::pick(1, 4, "id")); ok = ok && w.live.count(ids.back()); }
    size_t dn = symx::pick(0, 1, "size") ? n + 1 : n, dd = symx::pick(1, 3, "dims");
    Plain out(dn, dd);
    for (size_t i = 0; i < dn; ++i) out.set_datum(i, std::vector<float>(dd, 77.0f));
    ok = ok && dn == n && dd == 2;
    bool r = refused([&] { w.idx.reconstruct_at(data::SimpleDataView<float>(out.data(), dn, dd), std::span<const uint64_t>(ids.data(), n)); });
    CHECK_(r == !ok, "reconstruction was refused or accepted wrongly");
    bool good = true;
    for (size_t i = 0; i < dn; ++i) for (size_t c = 0; c < dd; ++c) good &= word(out.get_datum(i)[c]) == word(!ok ? 77.0f : c ? w.pay[ids[i]] : w.live[ids[i]]);
    CHECK_(good, "reconstruction yields another vector, or writes although it is refused");
    symx_reach("end");
}
