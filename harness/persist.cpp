// Saving a whole index and assembling it again.
#include "memfs.h"
#include "dynamic.cpp"
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/vamana.h"
static constexpr size_t BIG = ~size_t(0) >> 1;
static void disk() { memfs::mkdir("/"); memfs::mkdir("/w"); }
static Alloc blocks(size_t p2) { return Alloc(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(p2)}); }
template <typename D = DL2> static auto reload(size_t p2 = 4, bool from_static = false) {
    return auto_dynamic_assemble("/w/config", lib::Lazy([] { return Graph::load("/w/graph"); }), lib::Lazy([=] { return lib::load_from_disk<Data>("/w/data", blocks(p2)); }), D(), 1, from_static);
}
template <typename A, typename B> static bool same_results(A& a, B& b, size_t k, float query, size_t window) {
    Plain q(1, 2);
    q.set_datum(0, vec(query, 0));
    auto r = QueryResult<size_t>(1, k), s = QueryResult<size_t>(1, k);
    a.search(r.view(), q, VamanaSearchParameters(SearchBufferConfig(window), false, 1, 1));
    b.search(s.view(), q, VamanaSearchParameters(SearchBufferConfig(window), false, 1, 1));
    bool ok = true;
    for (size_t i = 0; i < k; ++i) ok = ok & (r.index(0, i) == s.index(0, i)) & (word(r.distance(0, i)) == word(s.distance(0, i)));
    return ok;
}
// search parameters of any value
static VamanaSearchParameters any_search(const char* name) {
    auto c = symx::in<size_t>(1, BIG, name), w = symx::in<size_t>(1, BIG, name);
    symx_assume(w <= c);
    return VamanaSearchParameters(SearchBufferConfig(w, c), symx::flag("visited"), symx::in<size_t>(0, BIG, "lookahead"), symx::in<size_t>(0, BIG, "step"));
}
template <typename Index> static void any_settings(Index& idx) {
    idx.set_alpha(symx::finite("alpha"));
    idx.set_construction_window_size(symx::in<size_t>(1, BIG, "window"));
    idx.set_max_candidates(symx::in<size_t>(1, BIG, "candidates"));
    idx.set_full_search_history(symx::flag("history"));
}
template <typename Index> static void plain_settings(Index& idx) { idx.set_alpha(1.25f); idx.set_construction_window_size(4); idx.set_max_candidates(4); }
template <typename A, typename B> static void same_settings(A& a, B& b) {
    CHECK_(a.get_alpha() == b.get_alpha() && a.max_degree() == b.max_degree() && a.get_construction_window_size() == b.get_construction_window_size() && a.get_max_candidates() == b.get_max_candidates() && a.get_full_search_history() == b.get_full_search_history(), "a reloaded index has other build parameters");
    CHECK_(a.get_search_parameters() == b.get_search_parameters(), "a reloaded index has other search parameters");
}
// everything the saved parameters say, also what the index does not show
static VamanaIndexParameters on_disk() { return lib::load_from_disk<svs::index::vamana::detail::VamanaStateLoader>("/w/config", false, 0).parameters_; }
ENTRY(dynamic_reloaded) {
    disk();
    auto w = built(counter, 3, 2, 4, 1);
    for (int s = 0; s < STEPS - 1; ++s) w.step(counter);
    if (w.live.empty()) return;
    w.idx.save("/w/config", "/w/graph", "/w/data");
    w.consolidated = true;
    w.check();
    auto idx = reload(symx::pick(3, 5, "block size"));
    World<decltype(idx)> x{std::move(idx), w.live, w.pay, w.slots};
    x.next = w.next;
    x.check();
    same_settings(w.idx, x.idx);
    CHECK_(same_results(w.idx, x.idx, 3, symx::pick(0, 4, "query"), 2), "a reloaded index finds something else");
    x.step(counter);
    x.check();
    x.search(2);
    symx_reach("end");
}
// any settings
ENTRY(dynamic_settings) {
    disk();
    auto w = built(counter, 3, 2, 4, 1);
    any_settings(w.idx);
    auto search = any_search("search");
    w.idx.set_search_parameters(search);
    w.idx.save("/w/config", "/w/graph", "/w/data");
    CHECK_(w.idx.get_search_parameters() == search, "saving changes the search parameters");
    auto p = on_disk();
    CHECK_(p.build_parameters.prune_to == 1 && p.build_parameters.alpha == w.idx.get_alpha() && p.build_parameters.window_size == w.idx.get_construction_window_size() && p.build_parameters.max_candidate_pool_size == w.idx.get_max_candidates() && p.build_parameters.graph_max_degree == 2 && p.build_parameters.use_full_search_history == w.idx.get_full_search_history() && p.search_parameters == search && p.entry_point < 3, "other parameters are saved than the index has");
    auto x = reload();
    same_settings(w.idx, x);
    x.save("/w/config", "/w/graph", "/w/data");
    CHECK_(on_disk() == p, "a reloaded index saves other parameters");
    plain_settings(x); plain_settings(w.idx);
    CHECK_(same_results(w.idx, x, 3, symx::pick(0, 4, "query"), 2), "a reloaded index finds something else");
    symx_reach("end");
}
// the same directories saved to twice
ENTRY(saved_twice) {
    disk();
    auto w = built(counter, 3, 2, 4);
    w.idx.save("/w/config", "/w/graph", "/w/data");
    w.step(counter);
    if (w.live.empty()) return;
    w.idx.save("/w/config", "/w/graph", "/w/data");
    w.consolidated = true;
    auto idx = reload();
    World<decltype(idx)> x{std::move(idx), w.live, w.pay, w.slots};
    x.check();
    CHECK_(same_results(w.idx, x.idx, 3, 1, 2), "a reloaded index finds something else");
    symx_reach("end");
}
// one of the pieces belongs to another index, or is missing
ENTRY(pieces_mixed) {
    disk();
    auto w = built(counter, 3, 2, 4);
    w.idx.save("/w/config", "/w/graph", "/w/data");
    unsigned what = symx::pick(0, 3, "what"), n = symx::pick(1, 4, "size");
    auto v = built(counter, n, 2, 4);
    disk(); memfs::mkdir("/v");
    v.idx.save("/v/config", "/v/graph", "/v/data");
    const char* dirs[] = {"/config", "/graph", "/data"};
    if (what == 3) { memfs::find(std::string("/w") + dirs[n % 3])->used = false; for (auto& f : memfs::files) if (f.used && memfs::parent(f.name) == std::string("/w") + dirs[n % 3]) f.used = false; }
    else {
        for (auto& f : memfs::files) if (f.used && memfs::parent(f.name) == std::string("/w") + dirs[what]) f.used = false;
        for (auto& f : memfs::files) if (f.used && memfs::parent(f.name) == std::string("/v") + dirs[what]) f.name[1] = 'w';
    }
    bool no = refused([] { reload(); });
    CHECK_(no == (what == 3 || n != 3), "pieces of different indexes put together");
    symx_reach("end");
}
using SGraph = graphs::SimpleGraph<uint32_t>;
static auto static_index(size_t n) {
    Plain d(n, 2);
    for (size_t i = 0; i < n; ++i) d.set_datum(i, vec(float(i + 1), symx::rawf("payload")));
    SGraph g(n, n - 1);
    for (size_t i = 0; i < n; ++i) { std::vector<uint32_t> l; for (size_t j = 0; j < n; ++j) if (j != i && symx::pick(0, 1, "edge")) l.push_back(j); g.replace_node(i, l); }
    auto idx = VamanaIndex(std::move(g), std::move(d), uint32_t(symx::pick(0, n - 1, "entry")), DL2(), 1);
    return idx;
}
ENTRY(static_reloaded) {
    disk();
    auto a = static_index(3);
    any_settings(a);
    auto search = any_search("search");
    a.set_search_parameters(search);
    a.save("/w/config", "/w/graph", "/w/data");
    auto b = auto_assemble("/w/config", GraphLoader<uint32_t>("/w/graph"), lib::Lazy([] { return lib::load_from_disk<Plain>("/w/data"); }), DL2(), 1);
    CHECK_(a.size() == b.size() && a.dimensions() == b.dimensions(), "a reloaded index has another size");
    same_settings(a, b);
    CHECK_(b.get_search_parameters() == search, "a reloaded index has other search parameters");
    bool data = true;
    Plain x(3, 2), y(3, 2);
    std::vector<uint64_t> ids{0, 1, 2};
    a.reconstruct_at(data::SimpleDataView<float>(x.data(), 3, 2), std::span<const uint64_t>(ids));
    b.reconstruct_at(data::SimpleDataView<float>(y.data(), 3, 2), std::span<const uint64_t>(ids));
    for (size_t i = 0; i < 3; ++i) data = data & (x.get_datum(i)[0] == y.get_datum(i)[0]) & (word(x.get_datum(i)[1]) == word(y.get_datum(i)[1]));
    CHECK_(data, "a reloaded index has other vectors");
    CHECK_(same_results(a, b, 3, symx::pick(0, 3, "query"), symx::pick(1, 3, "window")), "a reloaded index finds something else");
    symx_reach("end");
}
// a static index continued as a mutable one
ENTRY(static_to_dynamic) {
    disk();
    auto a = static_index(3);
    any_settings(a);
    a.save("/w/config", "/w/graph", "/w/data");
    auto b = reload<>(4, true);
    same_settings(a, b);
    CHECK_(b.size() == 3 && b.has_id(0) && b.has_id(1) && b.has_id(2) && !b.has_id(3), "a mutable index assembled from a static one has other ids");
    CHECK_(same_results(a, b, 3, symx::pick(0, 3, "query"), symx::pick(1, 3, "window")), "a mutable index assembled from a static one finds something else");
    symx_reach("end");
}
template <typename A, typename B> static bool same_results_of(A& a, B& b, size_t k, float query, size_t window) {
    Plain q(1, 2);
    q.set_datum(0, vec(query, 0));
    a.set_search_window_size(window); b.set_search_window_size(window);
    auto r = a.search(q, k), s = b.search(q, k);
    bool ok = r.n_neighbors() == k && s.n_neighbors() == k && r.n_queries() == 1 && s.n_queries() == 1;
    for (size_t i = 0; i < k; ++i) ok = ok & (r.index(0, i) == s.index(0, i)) & (word(r.distance(0, i)) == word(s.distance(0, i)));
    return ok;
}
static std::vector<size_t> sorted(std::vector<size_t> v) { std::sort(v.begin(), v.end()); return v; }
// through the type-erased interface
ENTRY(orchestrated_dynamic) {
    disk();
    Data d(3, 2, blocks(4));
    float pay[3];
    for (size_t i = 0; i < 3; ++i) { pay[i] = symx::rawf("payload"); d.set_datum(i, vec(i + 1, pay[i])); }
    std::vector<size_t> ids{10, 20, 30};
    auto a = svs::DynamicVamana::build<float>(VamanaBuildParameters(1.0f, 2, 2, 8, 1, true), std::move(d), std::span<const size_t>(ids), DL2(), 1);
    std::vector<size_t> gone{10 * symx::pick(1, 3, "deleted")};
    if (symx::pick(0, 1, "delete")) a.delete_points(gone); else gone.clear();
    a.save("/w/config", "/w/graph", "/w/data");
    auto b = svs::DynamicVamana::assemble<float>("/w/config", lib::Lazy([] { return Graph::load("/w/graph"); }), lib::Lazy([=] { return lib::load_from_disk<Data>("/w/data", blocks(4)); }), DL2(), 1);
    CHECK_(a.size() == b.size() && b.size() == 3 - gone.size() && a.dimensions() == b.dimensions(), "a reloaded index has another size");
    bool known = true;
    for (size_t e : {10, 20, 30}) known &= b.has_id(e) == (gone.empty() || gone[0] != e) && a.has_id(e) == b.has_id(e);
    CHECK_(known && sorted(b.all_ids()) == sorted(a.all_ids()), "a reloaded index has other ids");
    CHECK_(a.get_alpha() == b.get_alpha() && a.get_construction_window_size() == b.get_construction_window_size(), "a reloaded index has other build parameters");
    CHECK_(a.get_search_parameters() == b.get_search_parameters(), "a reloaded index has other search parameters");
    CHECK_(same_results_of(a, b, 2, symx::pick(0, 4, "query"), symx::pick(2, 3, "window")), "a reloaded index finds something else");
    symx_reach("end");
}
ENTRY(orchestrated_static) {
    disk();
    Plain d(3, 2);
    for (size_t i = 0; i < 3; ++i) d.set_datum(i, vec(float(i + 1), float(3 * i)));
    auto a = svs::Vamana::build<float>(VamanaBuildParameters(1.0f, 2, 2, 8, 1, true), std::move(d), DL2(), 1);
    auto search = any_search("search");
    a.set_search_parameters(search);
    a.save("/w/config", "/w/graph", "/w/data");
    auto b = svs::Vamana::assemble<float>("/w/config", GraphLoader<uint32_t>("/w/graph"), lib::Lazy([] { return lib::load_from_disk<Plain>("/w/data"); }), DL2(), 1);
    CHECK_(a.size() == b.size() && a.dimensions() == b.dimensions(), "a reloaded index has another size");
    CHECK_(a.get_alpha() == b.get_alpha() && a.get_construction_window_size() == b.get_construction_window_size(), "a reloaded index has other build parameters");
    CHECK_(b.get_search_parameters() == search, "a reloaded index has other search parameters");
    auto plain = VamanaSearchParameters(SearchBufferConfig(2), symx::pick(0, 1, "visited"), 1, 1);
    a.set_search_parameters(plain); b.set_search_parameters(plain);
    CHECK_(same_results_of(a, b, 3, symx::pick(0, 4, "query"), symx::pick(1, 3, "window")), "a reloaded index finds something else");
    symx_reach("end");
}
