// Clusterings, assignment to clusters, k-means and search over clusters. Distances come from tables, so that every order (ties included) is possible.
#include "symx.h"
#include <random>
static unsigned draws = 0, draws_max = 8;
static bool draws_forked = false; // one path for each quarter of the range
static bool draws_endless = false; // no amount of random numbers can be enough
// random numbers: any
template <> std::mt19937_64::result_type std::mt19937_64::operator()() {
    if (++draws > draws_max) { CHECK_(!draws_endless, "draws random numbers for ever"); symx_assume(false); }
    if (draws_forked) return uint64_t(symx::pick(0, 3, "random")) << 62 | 1ull << 61;
    return uint64_t(symx::any<uint8_t>("random")) << 56 | 1ull << 55; // as fine as the ranges below need
}
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/kmeans.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include <algorithm>
#include <set>
#include <vector>
#ifndef LEAVES
#define LEAVES 3
#endif
#ifndef STEPS
#define STEPS 3
#endif
using namespace svs;
using namespace svs::index;
using Nb = Neighbor<uint32_t>;
template <typename T> using Flat = data::SimpleData<T, Dynamic, lib::Allocator<T>>;

///// contents and statistics
// ids that share hash buckets, and one that does not
static uint32_t some_id(unsigned n, const char* what) { const uint32_t v[] = {1, 17, 4, 33, 0}; return v[symx::pick(0, n - 1, what)]; }
struct Member { uint32_t id; float d; };
static bool same(const inverted::Cluster<uint32_t>& c, const std::vector<Member>& m) {
    if (c.size() != m.size()) return false;
    bool ok = true; size_t i = 0;
    for (auto& e : c) { ok &= e.id() == m[i].id && e.distance() == m[i].d; ++i; }
    return ok;
}
static void inspect(const inverted::Clustering<uint32_t>& cl, const std::vector<uint32_t>& ids, const std::vector<std::vector<Member>>& want) {
    size_t n = ids.size(), total = 0, lo = SIZE_MAX, hi = 0, empty = 0;
    CHECK_(cl.size() == n, "the number of clusters is wrong");
    for (size_t i = 0; i < n; ++i) {
        CHECK_(cl.contains(ids[i]), "a cluster is missing");
        CHECK_(cl.at(ids[i]).centroid() == ids[i] && same(cl.at(ids[i]), want[i]), "a cluster does not hold what was put into it");
        total += want[i].size(); lo = std::min(lo, want[i].size()); hi = std::max(hi, want[i].size()); empty += want[i].empty();
    }
    CHECK_(cl.total_size() == total + n, "the total size is wrong");
    auto st = cl.statistics();
    CHECK_(st.num_clusters_ == n && st.num_leaves_ == total && st.min_size_ == lo && st.max_size_ == hi && st.empty_clusters_ == empty, "the statistics disagree with the contents");
    CHECK_(st.mean_size_ == double(total) / double(n), "the mean size is wrong");
    double var = 0; for (auto& w : want) var += (double(w.size()) - st.mean_size_) * (double(w.size()) - st.mean_size_);
    double e = st.std_size_ * st.std_size_ - var / double(n);
    CHECK_(e < 1e-9 && e > -1e-9, "the deviation of the sizes is wrong");
    auto hist = cl.leaf_histogram();
    auto trans = cl.packed_leaf_translation();
    std::vector<Member> all; for (auto& w : want) all.insert(all.end(), w.begin(), w.end());
    size_t distinct = 0; bool ok = true, packed = true;
    for (size_t i = 0; i < all.size(); ++i) {
        size_t count = 0; bool first = true;
        for (size_t k = 0; k < all.size(); ++k) { count += all[k].id == all[i].id; if (k < i) first &= all[k].id != all[i].id; }
        distinct += first;
        ok &= hist.contains(all[i].id) && hist.at(all[i].id) == count;
        packed &= trans.contains(all[i].id);
        for (size_t k = 0; k < i; ++k) packed &= (trans.at(all[i].id) == trans.at(all[k].id)) == (all[i].id == all[k].id);
    }
    for (auto& m : all) packed &= trans.at(m.id) < distinct;
    CHECK_(ok && hist.size() == distinct, "the leaf counts are wrong");
    CHECK_(packed && trans.size() == distinct, "leaves are not renumbered one to one");
    auto sorted = ids; std::sort(sorted.begin(), sorted.end());
    auto got = cl.sorted_centroids();
    CHECK_(std::equal(sorted.begin(), sorted.end(), got.begin(), got.end()), "the centroid list is wrong");
    std::vector<uint32_t> seen; cl.for_each_cluster([&](auto& c) { seen.push_back(c.centroid()); });
    CHECK_(seen == sorted, "clusters are not visited once each, in order");
    auto rest = cl.complement(6); size_t k = 0; bool good = true;
    for (uint32_t i = 0; i < 6; ++i) if (std::find(ids.begin(), ids.end(), i) == ids.end()) { good &= k < rest.size() && rest[k] == i; ++k; }
    CHECK_(good && k == rest.size(), "the vectors that are no centroids are listed wrongly");
}
ENTRY(contents) {
    std::vector<uint32_t> ids;
    for (size_t i = 0; i < 2; ++i) { ids.push_back(i ? 1 : some_id(3, "centroid") + 16); }
    inverted::Clustering<uint32_t> cl(ids.begin(), ids.end());
    std::vector<std::vector<Member>> want(ids.size());
    for (int s = 0; s < STEPS; ++s) {
        unsigned op = symx::pick(0, 3, "op");
        if (op < ids.size()) { Member m{some_id(3, "leaf"), symx::finite("distance")}; cl.insert(ids[op], Nb(m.id, m.d)); want[op].push_back(m); }
        else if (op == 2) { // a whole cluster, perhaps one that exists already
            auto id = some_id(4, "new"); bool there = false; for (auto o : ids) there |= o == id;
            Member m{some_id(3, "leaf"), 1.0f};
            bool threw = false;
            try { cl.insert(inverted::Cluster<uint32_t>(id, {Nb(m.id, m.d)})); } catch (const ANNException&) { threw = true; }
            CHECK_(threw == there, "a second cluster for one centroid is accepted, or a first one refused");
            if (!threw) { ids.push_back(id); want.push_back({m}); symx_reach("added"); } else symx_reach("refused");
        } else break;
    }
    inspect(cl, ids, want);
    auto copy = cl; CHECK_(copy == cl, "a copy differs");
    copy.insert(ids[0], Nb(9, 1.0f)); CHECK_(!(copy == cl), "clusterings with different contents compare equal");
    inspect(cl, ids, want);
    symx_reach("end");
}
ENTRY(sorting) {
    inverted::Clustering<uint32_t> cl; inverted::Cluster<uint32_t> c(7);
    std::vector<Member> m;
    for (uint32_t i = 0; i < LEAVES; ++i) { m.push_back({i, symx::finite("distance")}); c.push_back(Nb(i, m[i].d)); }
    cl.insert(std::move(c));
    bool less = symx::pick(0, 1, "less");
    if (less) cl.sort_clusters(std::less<>()); else cl.sort_clusters(std::greater<>());
    auto& e = cl.at(7).elements(); CHECK_(e.size() == LEAVES, "sorting changes the size");
    unsigned used = 0;
    for (size_t i = 0; i < e.size(); ++i) {
        uint32_t id = symx_concretize(e[i].id()); CHECK_(id < LEAVES && e[i].distance() == m[id].d, "sorting changes an element");
        used |= 1u << id;
        if (i) CHECK_(less ? e[i - 1].distance() <= e[i].distance() : e[i - 1].distance() >= e[i].distance(), "a sorted cluster is not nearest first");
    }
    CHECK_(used == (1u << LEAVES) - 1, "sorting loses an element");
    symx_reach("end");
}
///// limiting sizes: every leaf with copies in any of the clusters
template <typename Cmp> void reduce(size_t nc, size_t nl) {
    std::vector<uint32_t> ids; for (uint32_t i = 0; i < nc; ++i) ids.push_back(10 * (i + 1));
    inverted::Clustering<uint32_t> cl(ids.begin(), ids.end());
    std::vector<std::vector<Member>> in(nc);
    for (uint32_t l = 0; l < nl; ++l) {
        unsigned where = symx::pick(1, (1u << nc) - 1, "copies in");
        for (size_t c = 0; c < nc; ++c) if (where >> c & 1) { Member m{l, symx_range_float(0, 3, "distance")}; in[c].push_back(m); cl.insert(ids[c], Nb(m.id, m.d)); }
    }
    size_t limit = symx::pick(0, nl, "limit"); Cmp cmp;
    bool dry = symx::pick(0, 1, "dry run"), ok = true, said = true;
    auto before = cl;
    try { said = cl.reduce_maxsize(limit, cmp, dry); ok = said; } catch (const ANNException&) { ok = false; CHECK_(!dry, "a dry run throws"); }
    bool over = false; for (auto& v : in) over |= v.size() > limit;
    CHECK_(ok || over, "small clusters are refused");
    CHECK_(ok || dry || said, "a failure is not reported by an exception");
    std::vector<std::vector<bool>> kept(nc, std::vector<bool>(nl, false));
    for (size_t c = 0; c < nc; ++c) {
        auto& e = cl.at(ids[c]).elements();
        for (size_t i = 0; i < e.size(); ++i) {
            uint32_t id = symx_concretize(e[i].id()); bool found = false;
            for (auto& m : in[c]) found |= m.id == id && m.d == e[i].distance();
            CHECK_(found && !kept[c][id], "limiting sizes changes an element");
            kept[c][id] = true;
            if (i) CHECK_(!cmp(e[i].distance(), e[i - 1].distance()), "the clusters are left unsorted");
        }
        if (dry || in[c].size() <= limit) CHECK_(e.size() == in[c].size(), dry ? "a dry run removes something" : "a small cluster loses an element");
        else if (ok) CHECK_(e.size() == limit, "a large cluster is not reduced to the limit");
    }
    std::vector<size_t> copies(nl);
    for (uint32_t l = 0; l < nl; ++l) { for (size_t c = 0; c < nc; ++c) copies[l] += kept[c][l]; CHECK_(copies[l] > 0, "the last copy of a vector is dropped"); }
    for (size_t c = 0; c < nc; ++c) for (auto& gone : in[c]) if (!kept[c][gone.id]) for (auto& m : in[c])
        if (kept[c][m.id] && copies[m.id] > 1) CHECK_(!cmp(gone.d, m.d), "a nearer element is dropped while a farther one with other copies is kept");
    if (dry) { // says what a real run does
        bool real = true;
        try { real = before.reduce_maxsize(limit, cmp); } catch (const ANNException&) { real = false; }
        CHECK_(real == ok, "the dry run says something else than the real run does");
        symx_reach("dry");
    }
    symx_reach(ok ? "end" : "impossible");
}
ENTRY(reduce_less) { reduce<std::less<>>(2, LEAVES); }
ENTRY(reduce_greater) { reduce<std::greater<>>(2, 2); }
ENTRY(reduce_three) { reduce<std::less<>>(3, 2); }

///// assignment: rows of search results, with any distances
constexpr size_t NC = 3, NV = 8;
static float table[NV][NV];
static size_t id_of(float x) { auto i = size_t(symx_concretize(uint64_t(int(x)))); CHECK_(i < NV, "a distance is taken to something that is no vector"); return i; }
template <typename Base> struct Table {
    using compare = typename Base::compare;
    static constexpr bool implicit_broadcast = false;
    static constexpr bool must_fix_argument = false;
    operator Base() const { return {}; }
    template <typename A, typename B> float compute(const A& a, const B& b) const { return table[id_of(a[0])][id_of(b[0])]; }
};
static Flat<float> numbered(size_t n) { Flat<float> d(n, 1); for (size_t i = 0; i < n; ++i) d.set_datum(i, std::vector<float>{float(i)}); return d; }
using DIP = svs::DistanceIP; using DL2 = svs::DistanceL2;
template <typename Base> constexpr bool is_l2 = std::is_same_v<Base, DL2>;
// is d inside the bound that belongs to the nearest distance? (1 yes, 0 no, -1 not specified)
template <typename Base> int inside(float nearest, float d, int eps) {
    if (is_l2<Base>) return d <= nearest * float(1 + eps);
    if (nearest > 0) return d * float(1 + eps) >= nearest;
    return d == nearest ? 1 : -1;
}
template <typename Base, typename Pool> void assign(Pool&& pool, size_t nq, bool any_floats, size_t width) {
    const uint32_t global[NC] = {5, 2, 7};
    const size_t order[NC] = {2, 0, 1};
    std::vector<uint32_t> ids(global, global + NC);
    auto d = numbered(NV);
    typename Base::compare cmp;
    for (size_t a = 0; a < NC; ++a) for (size_t b = a; b < NC; ++b) { // between centroids
        float x = 2 * symx_range_float(is_l2<Base> ? 0 : -2, 3, "between"); table[global[a]][global[b]] = table[global[b]][global[a]] = x;
    }
    inverted::Clustering<uint32_t> cl(ids.begin(), ids.end());
    QueryResult<size_t> res(nq, width);
    std::vector<std::vector<float>> dist(nq);
    size_t real = std::min(width, NC);
    for (size_t q = 0; q < nq; ++q) for (size_t j = 0; j < width; ++j) {
        if (j >= real) { auto s = type_traits::sentinel_v<Neighbor<size_t>, typename Base::compare>; res.index(q, j) = s.id(); res.distance(q, j) = s.distance(); continue; }
        float x = any_floats ? symx::finite("distance") : 2 * symx_range_float(is_l2<Base> ? 0 : -3, 4, "distance");
        if (is_l2<Base>) symx_assume(x >= 0);
        if (j) symx_assume(!cmp(x, dist[q][j - 1]));
        if (any_floats) symx_assume(x < 3e38f && x > -3e38f);
        dist[q].push_back(x); res.index(q, j) = order[j]; res.distance(q, j) = x;
    }
    int eps = symx::pick(0, 1, "epsilon"); size_t replicas = symx::pick(0, 2, "replicas");
    auto par = inverted::ClusteringParameters().epsilon(eps).max_replicas(replicas).refinement_alpha(1.0);
    const uint32_t vec[2] = {1, 3};
    inverted::post_process_neighbors(d, par, cl, res, Table<Base>(), [&](size_t i) { return vec[i]; }, [&](size_t i) { CHECK_(i < NC, "an id that is no centroid is translated"); return global[i]; }, pool);
    for (size_t q = 0; q < nq; ++q) {
        bool in[NC]; size_t n = 0;
        for (size_t j = 0; j < real; ++j) {
            size_t count = 0; bool right = true;
            for (auto& e : cl.at(global[order[j]])) if (e.id() == vec[q]) { ++count; right &= e.distance() == dist[q][j]; }
            CHECK_(count <= 1, "a vector is put into one cluster twice");
            CHECK_(right, "a vector is stored with a wrong distance");
            in[j] = count; n += count;
            if (!any_floats && count) CHECK_(inside<Base>(dist[q][0], dist[q][j], eps) != 0, "a vector is put into a cluster beyond the bound");
        }
        CHECK_(in[0], "a vector is missing from the cluster of its nearest centroid");
        CHECK_(n <= replicas + 1, "more replicas than allowed");
        if (!any_floats && n < replicas + 1) for (size_t j = 1; j < real; ++j) if (!in[j] && inside<Base>(dist[q][0], dist[q][j], eps) == 1) {
            bool covered = false;
            for (size_t s = 0; s < real; ++s) if (in[s] && s != j) covered |= !cmp(dist[q][j], table[global[order[s]]][global[order[j]]]);
            CHECK_(covered, "a replica within the bound is left out although no chosen centroid covers it");
        }
    }
    size_t total = 0; for (auto id : ids) for (auto& e : cl.at(id)) { ++total; bool known = false; for (size_t q = 0; q < nq; ++q) known |= e.id() == vec[q]; CHECK_(known, "a cluster holds something that was not assigned"); }
    symx_reach("end");
}
ENTRY(assign_l2) { threads::SequentialThreadPool p; assign<DL2>(p, 1, false, 3); }
ENTRY(assign_ip) { threads::SequentialThreadPool p; assign<DIP>(p, 1, false, 3); }
ENTRY(assign_any_l2) { threads::SequentialThreadPool p; assign<DL2>(p, 1, true, 2); }
ENTRY(assign_any_ip) { threads::SequentialThreadPool p; assign<DIP>(p, 1, true, 2); }
ENTRY(assign_padded) { threads::SequentialThreadPool p; assign<DL2>(p, 1, false, 4); }
ENTRY(assign_rows) { threads::SequentialThreadPool p; assign<DL2>(p, 2, false, 2); }
// two threads, one cluster
ENTRY(assign_threads) {
    auto pool = threads::NativeThreadPool(2);
    auto d = numbered(NV); std::vector<uint32_t> ids{5, 2};
    for (auto& r : table) for (auto& x : r) x = 1;
    inverted::Clustering<uint32_t> cl(ids.begin(), ids.end());
    QueryResult<size_t> res(2, 2);
    unsigned first[2];
    for (size_t q = 0; q < 2; ++q) { first[q] = symx::pick(0, 1, "nearest"); for (size_t j = 0; j < 2; ++j) { res.index(q, j) = first[q] ^ j; res.distance(q, j) = float(j); } }
    inverted::post_process_neighbors(d, inverted::ClusteringParameters(), cl, res, Table<DL2>(), [](size_t i) { return 3 * i; }, [&](size_t i) { return ids.at(i); }, pool);
    size_t at[2] = {0, 0};
    for (size_t q = 0; q < 2; ++q) { at[first[q]]++; bool found = false; for (auto& e : cl.at(ids[first[q]])) found |= e.id() == 3 * q && e.distance() == 0; CHECK_(found, "a vector is missing from the cluster of its nearest centroid"); }
    for (size_t c = 0; c < 2; ++c) CHECK_(cl.at(ids[c]).size() == at[c], "a cluster has too many or too few elements");
    symx_reach("end");
}
///// the whole assignment, with an exact primary index
template <typename Base> struct Primary {
    using search_parameters_type = vamana::VamanaSearchParameters;
    using compare = typename Base::compare;
    using Scratch = vamana::SearchScratchspace<vamana::SearchBuffer<uint32_t, compare>, Table<Base>>;
    std::vector<uint32_t> centroids; threads::NativeThreadPool pool{1};
    search_parameters_type p{};
    Primary(std::vector<uint32_t> c) : centroids(std::move(c)) {}
    void set_search_parameters(const search_parameters_type& q) { p = q; }
    search_parameters_type get_search_parameters() const { return p; }
    Table<Base> get_distance() const { return {}; }
    threads::NativeThreadPool& borrow_threadpool() { return pool; }
    void set_num_threads(size_t) {}
    size_t dimensions() const { return 1; }
    std::vector<Nb> exact(size_t v) const {
        std::vector<Nb> r; for (size_t c = 0; c < centroids.size(); ++c) r.emplace_back(uint32_t(c), table[v][centroids[c]]);
        for (size_t i = 1; i < r.size(); ++i) for (size_t j = i; j && compare()(r[j].distance(), r[j - 1].distance()); --j) std::swap(r[j], r[j - 1]);
        return r;
    }
    template <typename I, typename Q> void search(QueryResultView<I> res, const Q& qs, const search_parameters_type&) {
        for (size_t i = 0; i < qs.size(); ++i) {
            auto r = exact(id_of(qs.get_datum(i)[0]));
            for (size_t j = 0; j < res.n_neighbors(); ++j) if (j < r.size()) res.set(Neighbor<I>(r[j].id(), r[j].distance()), i, j); else res.set(type_traits::sentinel_v<Neighbor<I>, compare>, i, j);
        }
    }
    Scratch scratchspace(const search_parameters_type& q) const { return Scratch(vamana::SearchBuffer<uint32_t, compare>(q.buffer_config_, compare(), q.search_buffer_visited_set_), Table<Base>(), {}); }
    Scratch scratchspace() const { return scratchspace(p); }
    template <typename Q> void search(const Q& q, Scratch& s) const { s.buffer.clear(); for (auto& n : exact(id_of(q[0]))) s.buffer.insert({n.id(), n.distance()}); }
};
template <typename Base> void whole(size_t n, bool limited) {
    auto d = numbered(n); typename Base::compare cmp;
    std::vector<uint32_t> ids{uint32_t(symx::pick(0, n - 1, "centroid")), 0}; ids[1] = (ids[0] + symx::pick(1, n - 1, "other")) % n;
    for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < 2; ++b) table[a][ids[b]] = 2 * symx_range_float(is_l2<Base> ? 0 : -2, 3, "distance");
    table[ids[0]][ids[1]] = table[ids[1]][ids[0]];
    auto par = inverted::ClusteringParameters().epsilon(1).max_replicas(symx::pick(0, 1, "replicas")).batchsize(symx::pick(1, n, "batch")).num_intermediate_results(3);
    size_t limit = limited ? symx::pick(1, n, "limit") : 0; par.max_cluster_size(limit);
    Primary<Base> index(ids);
    inverted::Clustering<uint32_t> cl;
    try { cl = inverted::cluster_with(d, lib::as_const_span(ids), par, index); } catch (const ANNException&) { CHECK_(limited, "clustering fails"); symx_reach("refused"); return; }
    CHECK_(cl.size() == 2, "the number of clusters is wrong");
    for (uint32_t v = 0; v < n; ++v) {
        size_t c[2] = {0, 0}; bool right = true;
        for (size_t b = 0; b < 2; ++b) for (auto& e : cl.at(ids[b])) if (e.id() == v) { ++c[b]; right &= e.distance() == table[v][ids[b]]; }
        CHECK_(right, "a vector is stored with a wrong distance");
        if (v == ids[0] || v == ids[1]) { CHECK_(!c[0] && !c[1], "a centroid is put into a cluster"); continue; }
        CHECK_(c[0] <= 1 && c[1] <= 1 && c[0] + c[1] >= 1, "a vector is lost or duplicated");
        if (!limited) {
            bool near0 = !cmp(table[v][ids[1]], table[v][ids[0]]), near1 = !cmp(table[v][ids[0]], table[v][ids[1]]);
            CHECK_((c[0] && near0) || (c[1] && near1), "a vector is missing from the cluster of its nearest centroid");
        }
    }
    for (size_t b = 0; b < 2; ++b) {
        auto& e = cl.at(ids[b]).elements();
        if (limited) CHECK_(e.size() <= limit, "a cluster exceeds the limit");
        for (size_t i = 1; i < e.size(); ++i) CHECK_(!cmp(e[i].distance(), e[i - 1].distance()), "a cluster is not sorted nearest first");
    }
    symx_reach("end");
}
ENTRY(whole_l2) { whole<DL2>(4, false); }
ENTRY(whole_ip) { whole<DIP>(3, false); }
ENTRY(whole_limited) { whole<DL2>(4, true); }
ENTRY(whole_range) {
    auto d = numbered(3); for (auto& r : table) for (auto& x : r) x = 1;
    std::vector<uint32_t> ids{1, symx::any<uint32_t>("centroid")}; symx_assume(ids[1] != 1);
    bool bad = ids[1] >= 3, threw = false; if (!bad) ids[1] = symx_concretize(ids[1]);
    Primary<DL2> index(ids);
    try { inverted::cluster_with(d, lib::as_const_span(ids), inverted::ClusteringParameters(), index); } catch (const ANNException&) { threw = true; }
    CHECK_(threw == bad, "a centroid that is no vector is accepted, or a proper one refused");
    symx_reach("end");
}
///// choosing centroids, with any random numbers
ENTRY(random_centroids) {
    size_t n = symx::pick(1, 3, "n"), k = symx::pick(0, n, "k"); draws_max = k + 2;
    auto v = inverted::randomly_select_centroids<uint32_t>(n, k, symx::any<uint8_t>("seed"));
    CHECK_(v.size() == k, "the number of centroids is wrong");
    for (size_t i = 0; i < k; ++i) { CHECK_(v[i] < n, "a centroid is no stored vector"); if (i) CHECK_(v[i - 1] < v[i], "a centroid is chosen twice or out of order"); }
    symx_reach("end");
}
///// k-means
ENTRY(nearest) {
    size_t n = symx::pick(1, 3, "n"); Flat<float> d(n, 2); std::vector<float> q{symx_range_float(-3, 3, "q"), 1.0f};
    std::vector<float> dist;
    for (size_t i = 0; i < n; ++i) { float x = symx_range_float(-3, 3, "x"), y = symx_range_float(0, 2, "y"); d.set_datum(i, std::vector<float>{x, y}); dist.push_back((x - q[0]) * (x - q[0]) + (y - 1) * (y - 1)); }
    auto r = find_nearest(lib::as_const_span(q), d);
    CHECK_(r.id() < n, "the nearest vector is no stored vector");
    size_t id = symx_concretize(r.id());
    CHECK_(r.distance() == dist[id], "the distance of the nearest vector is wrong");
    for (auto x : dist) CHECK_(dist[id] <= x, "a nearer vector exists");
    symx_reach("end");
}
ENTRY(mean_error) {
    auto pool = threads::NativeThreadPool(1); size_t n = symx::pick(1, 2, "n"); Flat<float> d(n, 1), c(2, 1); float x[2], y[2]; double sum = 0;
    for (size_t i = 0; i < 2; ++i) { y[i] = symx_range_float(-3, 3, "centroid"); c.set_datum(i, std::vector<float>{y[i]}); }
    for (size_t i = 0; i < n; ++i) { x[i] = symx_range_float(-3, 3, "x"); d.set_datum(i, std::vector<float>{x[i]}); sum += std::min((x[i] - y[0]) * (x[i] - y[0]), (x[i] - y[1]) * (x[i] - y[1])); }
    CHECK_(mean_squared_error(d, c, pool) == sum / double(n), "the mean squared error is wrong");
    symx_reach("end");
}
ENTRY(train) {
    auto pool = threads::NativeThreadPool(1);
    size_t n = symx::pick(1, 3, "n"), k = symx::pick(1, 4, "clusters"), epochs = symx::pick(0, 1, "epochs"), batch = symx::pick(1, 2, "batch");
    draws_max = std::min(k, n) + 2; draws_endless = k > n; draws_forked = true;
    Flat<float> d(n, 1); std::vector<float> v;
    for (size_t i = 0; i < n; ++i) { v.push_back(epochs ? float(4 * i) : symx_range_float(0, 3, "x")); for (size_t j = 0; j < i; ++j) symx_assume(v[j] != v[i]); d.set_datum(i, std::vector<float>{v[i]}); }
    bool threw = false; size_t calls = 0;
    try {
        auto c = train_impl(KMeansParameters(k, batch, epochs), d, pool, [&](auto&&...) { ++calls; });
        CHECK_(c.size() == k && c.dimensions() == 1, "the number of centroids is wrong");
        for (size_t i = 0; i < k; ++i) {
            float x = c.get_datum(i)[0]; if (epochs) CHECK_(x >= 0 && x <= float(4 * (n - 1)), "a centroid is no mean of stored vectors");
            if (!epochs) for (size_t j = 0; j < i; ++j) CHECK_(x != c.get_datum(j)[0], "one vector is chosen as a centroid twice");
            if (!epochs) { bool stored = false; for (size_t j = 0; j < n; ++j) stored |= x == v[j]; CHECK_(stored, "an initial centroid is no stored vector"); }
        }
        CHECK_(calls == epochs, "the callback does not run once in each epoch");
    } catch (const ANNException&) { threw = true; }
    CHECK_(threw == (k > n), "more clusters than vectors are accepted, or fewer refused");
    symx_reach(threw ? "refused" : "end");
}
///// search over clusters
template <typename Base, typename Strategy> void find(size_t nl, size_t nq, bool ask) {
    constexpr size_t C = 2; size_t n = nl + C; auto d = numbered(n + nq); typename Base::compare cmp;
    std::vector<uint32_t> ids{uint32_t(n - 1), uint32_t(n - 2)}; // centroids in local order
    std::vector<uint32_t> sorted{uint32_t(n - 2), uint32_t(n - 1)};
    inverted::Clustering<uint32_t> cl(ids.begin(), ids.end());
    std::vector<unsigned> where(n);
    for (uint32_t l = 0; l < nl; ++l) { where[l] = symx::pick(1, 3, "cluster"); for (size_t c = 0; c < C; ++c) if (where[l] >> c & 1) cl.insert(sorted[c], Nb(l, 0.0f)); }
    for (size_t c = 0; c < C; ++c) where[sorted[c]] = 1u << c;
    for (size_t q = 0; q < nq; ++q) for (size_t i = 0; i < n; ++i) table[n + q][i] = 2 * symx_range_float(is_l2<Base> ? 0 : -2, is_l2<Base> ? 4 : 3, "distance");
    for (size_t q = 0; q < nq; ++q) for (size_t i = 0; i < n; ++i) table[i][n + q] = table[n + q][i];
    int eps = symx::pick(0, 1, "epsilon"); size_t k = symx::pick(1, nl + C, "k"), window = symx::pick(1, C, "window");
    using vamana::VamanaSearchParameters;
    auto params = VamanaSearchParameters().buffer_config(window);
    inverted::InvertedIndex index(Primary<Base>(sorted), Strategy()(d, cl, lib::Allocator<std::byte>()), std::vector<uint32_t, lib::Allocator<uint32_t>>(sorted.begin(), sorted.end()), threads::NativeThreadPool(1));
    inverted::InvertedSearchParameters sp(params, eps);
    auto queries = Flat<float>(nq, 1); for (size_t q = 0; q < nq; ++q) queries.set_datum(q, std::vector<float>{float(n + q)});
    QueryResult<size_t> res(nq, k);
    if (ask) svs::index::search_batch_into_with(index, res.view(), queries, sp); // parameters of this search only
    else { index.set_search_parameters(sp); auto g = index.get_search_parameters(); CHECK_(g == sp, "search parameters read back differ"); svs::index::search_batch_into(index, res.view(), queries); }
    for (size_t q = 0; q < nq; ++q) {
        auto& dist = table[n + q];
        bool first = !cmp(dist[sorted[1]], dist[sorted[0]]); size_t a = first ? 0 : 1, b = 1 - a; // a: nearest centroid
        unsigned must = 1u << a, may = 1u << a;
        if (window > 1) {
            int in = inside<Base>(dist[sorted[a]], dist[sorted[b]], eps);
            float x = dist[sorted[b]], y = dist[sorted[a]];
            bool edge = is_l2<Base> ? x == y * float(1 + eps) : x * float(1 + eps) == y; // on the bound itself: either
            if (in) may |= 1u << b;
            if (in == 1 && !edge) must |= 1u << b;
        }
        bool used[NV] = {}; size_t m = 0;
        for (; m < k; ++m) {
            size_t id = res.index(q, m); if (id >= n) break;
            id = symx_concretize(id);
            CHECK_(res.distance(q, m) == dist[id], "a result has a wrong distance");
            CHECK_(!used[id], "a vector is returned twice"); used[id] = true;
            CHECK_((where[id] & may) != 0, "a result comes from a cluster beyond the bound");
            if (m) CHECK_(!cmp(res.distance(q, m), res.distance(q, m - 1)), "results are not best first");
        }
        for (size_t r = m; r < k; ++r) { auto s = type_traits::sentinel_v<Neighbor<size_t>, typename Base::compare>; CHECK_(res.index(q, r) == s.id() && res.distance(q, r) == s.distance(), "missing results are not marked as such"); }
        for (size_t i = 0; i < n; ++i) if (!used[i] && (where[i] & must)) {
            CHECK_(m == k, "fewer results than there are candidates");
            if (m) CHECK_(!cmp(dist[i], res.distance(q, m - 1)), "a better vector in a cluster that must be searched is left out");
        }
    }
    symx_reach("end");
}
ENTRY(find_sparse) { find<DL2, inverted::SparseStrategy>(2, 1, true); }
ENTRY(find_dense) { find<DL2, inverted::DenseStrategy>(2, 1, true); }
ENTRY(find_ip) { find<DIP, inverted::SparseStrategy>(2, 1, true); }
ENTRY(find_default) { find<DIP, inverted::DenseStrategy>(1, 1, false); }
ENTRY(find_queries) { find<DL2, inverted::SparseStrategy>(1, 2, true); }
///// everything together: centroids picked at random, real graph, real distances; a loose bound makes the search exhaustive
ENTRY(real_index) {
    draws_forked = true; draws_max = 2; constexpr size_t N = 4;
    Flat<float> d(N, 1); std::vector<float> v;
    for (size_t i = 0; i < N; ++i) { v.push_back(symx_range_float(0, 2, "x")); d.set_datum(i, std::vector<float>{v[i]}); }
    float q = 3; auto queries = Flat<float>(1, 1); queries.set_datum(0, std::vector<float>{q});
    auto par = inverted::InvertedBuildParameters(inverted::ClusteringParameters().percent_centroids(lib::Percent(0.5)).search_window_size(4).num_intermediate_results(3), vamana::VamanaBuildParameters{1.0f, 4, 8, 8, 4, true});
    auto index = inverted::auto_build(par, d, DL2(), 1, inverted::SparseStrategy());
    size_t k = symx::pick(1, N, "k"); QueryResult<size_t> res(1, k);
    svs::index::search_batch_into_with(index, res.view(), queries, inverted::InvertedSearchParameters(vamana::VamanaSearchParameters().buffer_config(4), 1000));
    bool used[N] = {};
    for (size_t j = 0; j < k; ++j) {
        CHECK_(res.index(0, j) < N, "a vector is not found although every cluster is searched"); size_t id = symx_concretize(res.index(0, j));
        CHECK_(!used[id], "a vector is returned twice"); used[id] = true;
        CHECK_(res.distance(0, j) == (v[id] - q) * (v[id] - q), "a result has a wrong distance");
        if (j) CHECK_(res.distance(0, j - 1) <= res.distance(0, j), "results are not best first");
    }
    for (size_t i = 0; i < N; ++i) if (!used[i]) CHECK_(res.distance(0, k - 1) <= (v[i] - q) * (v[i] - q), "a nearer vector is left out although every cluster is searched");
    symx_reach("end");
}
