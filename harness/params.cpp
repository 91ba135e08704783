// Saving and loading of parameter sets, through the library's tables (not their text form).
#define FMT_HEADER_ONLY 1
#include "symx.h"
#include "svs/lib/exception.h"
// The text of an error is not under test (and formatting symbolic numbers is expensive).
namespace svs::lib { struct PlainException : ANNException { explicit PlainException(auto&&...) : ANNException(std::string()) {} }; }
#undef ANNEXCEPTION
#define ANNEXCEPTION(...) ::svs::lib::PlainException(__VA_ARGS__)
#include "svs/core/distance.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/index/inverted/memory_search_params.h"
#include "svs/index/vamana/index.h"
#include <climits>
using namespace svs;
using namespace svs::index::vamana;
using namespace svs::index::inverted;
constexpr size_t MAX = INT64_MAX;
static uint32_t bits(float f) { uint32_t b; __builtin_memcpy(&b, &f, 4); return b; }
static uint64_t bits(double f) { uint64_t b; __builtin_memcpy(&b, &f, 8); return b; }
static double anydouble(const char* n) { double d = symx::any<double>(n); symx_assume(d == d); return d; }
static float anyfloat(const char* n) { float d = symx::any<float>(n); symx_assume(d == d); return d; }
template <typename F> static bool refused(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }
template <typename T> static T load(const toml::table& t) { return lib::load<T>(lib::node_view(t)); }

static VamanaBuildParameters build_params() {
    return VamanaBuildParameters(anyfloat("alpha"), symx::any<size_t>("degree"), symx::any<size_t>("window"), symx::any<size_t>("pool"), symx::any<size_t>("prune_to"), symx::any<uint8_t>("history") & 1);
}
static bool same(const VamanaBuildParameters& a, const VamanaBuildParameters& b) {
    return (bits(a.alpha) == bits(b.alpha)) & (a.graph_max_degree == b.graph_max_degree) & (a.window_size == b.window_size) & (a.max_candidate_pool_size == b.max_candidate_pool_size) & (a.prune_to == b.prune_to) & (a.use_full_search_history == b.use_full_search_history);
}
static bool fits(const VamanaBuildParameters& a) {
    return (a.graph_max_degree <= MAX) & (a.window_size <= MAX) & (a.max_candidate_pool_size <= MAX) & (a.prune_to <= MAX);
}
static VamanaSearchParameters search_params() {
    size_t w = symx::any<size_t>("window"), c = symx::any<size_t>("capacity");
    symx_assume(w <= c);
    return VamanaSearchParameters(SearchBufferConfig(w, c), symx::any<uint8_t>("visited") & 1, symx::any<size_t>("lookahead"), symx::any<size_t>("step"));
}
static bool same(const VamanaSearchParameters& a, const VamanaSearchParameters& b) {
    return (a.buffer_config_.get_search_window_size() == b.buffer_config_.get_search_window_size()) & (a.buffer_config_.get_total_capacity() == b.buffer_config_.get_total_capacity())
        & (a.search_buffer_visited_set_ == b.search_buffer_visited_set_) & (a.prefetch_lookahead_ == b.prefetch_lookahead_) & (a.prefetch_step_ == b.prefetch_step_);
}
static bool fits(const VamanaSearchParameters& a) {
    return (a.buffer_config_.get_search_window_size() <= MAX) & (a.buffer_config_.get_total_capacity() <= MAX) & (a.prefetch_lookahead_ <= MAX) & (a.prefetch_step_ <= MAX);
}
static VamanaIndexParameters index_params() { size_t e = symx::any<size_t>("entry_point"); auto b = build_params(); auto s = search_params(); return VamanaIndexParameters(e, b, s); }
static bool same(const VamanaIndexParameters& a, const VamanaIndexParameters& b) { return (a.entry_point == b.entry_point) & same(a.build_parameters, b.build_parameters) & same(a.search_parameters, b.search_parameters); }
static bool fits(const VamanaIndexParameters& a) { return (a.entry_point <= MAX) & fits(a.build_parameters) & fits(a.search_parameters); }
static InvertedSearchParameters isearch() { return InvertedSearchParameters(search_params(), anydouble("epsilon")); }
static bool same(const InvertedSearchParameters& a, const InvertedSearchParameters& b) { return same(a.primary_parameters_, b.primary_parameters_) & (bits(a.refinement_epsilon_) == bits(b.refinement_epsilon_)); }
static bool fits(const InvertedSearchParameters& a) { return fits(a.primary_parameters_); }
static ClusteringParameters clustering() {
    double p = symx::any<double>("percent");
    symx_assume(p >= 0 && p <= 1);
    return ClusteringParameters(lib::Percent(p), anydouble("epsilon"), symx::any<size_t>("replicas"), symx::any<size_t>("cluster"), symx::any<uint64_t>("seed"), symx::any<size_t>("batch"), symx::any<size_t>("window"), symx::any<size_t>("intermediate"), anydouble("refinement"));
}
static bool same(const ClusteringParameters& a, const ClusteringParameters& b) {
    return (bits(a.percent_centroids_.value()) == bits(b.percent_centroids_.value())) & (bits(a.epsilon_) == bits(b.epsilon_)) & (a.max_replicas_ == b.max_replicas_) & (a.max_cluster_size_ == b.max_cluster_size_)
        & (a.seed_ == b.seed_) & (a.batchsize_ == b.batchsize_) & (a.search_window_size_ == b.search_window_size_) & (a.num_intermediate_results_ == b.num_intermediate_results_) & (bits(a.refinement_alpha_) == bits(b.refinement_alpha_));
}
static bool fits(const ClusteringParameters& a) {
    return (a.max_replicas_ <= MAX) & (a.max_cluster_size_ <= MAX) & (a.batchsize_ <= MAX) & (a.search_window_size_ <= MAX) & (a.num_intermediate_results_ <= MAX);
}
static InvertedBuildParameters ibuild() { auto c = clustering(); return InvertedBuildParameters(c, build_params()); }
static bool same(const InvertedBuildParameters& a, const InvertedBuildParameters& b) { return same(a.clustering_parameters_, b.clustering_parameters_) & same(a.primary_parameters_, b.primary_parameters_); }
static bool fits(const InvertedBuildParameters& a) { return fits(a.clustering_parameters_) & fits(a.primary_parameters_); }

template <typename T> static void roundtrip(const T& x) {
    bool ok = fits(x);
    try {
        toml::table t = lib::save_to_table(x);
        CHECK_(ok, "a value that a table cannot hold was saved anyway");
        T y = load<T>(t);
        CHECK_(same(x, y), "a saved parameter set loads back as another");
        symx_reach("end");
    } catch (const std::exception&) {
        CHECK_(!ok, "a parameter set cannot be saved and loaded");
        symx_reach("refused");
    }
}
ENTRY(keep_build) { roundtrip(build_params()); }
ENTRY(keep_search) { roundtrip(search_params()); }
ENTRY(keep_index) { roundtrip(index_params()); }
ENTRY(keep_inverted_search) { roundtrip(isearch()); }
ENTRY(keep_clustering) { roundtrip(clustering()); }
ENTRY(keep_inverted_build) { roundtrip(ibuild()); }

// ---- refusals. `replica` holds concrete values, so that only the tampering is symbolic.
static VamanaBuildParameters b0() { return VamanaBuildParameters(1.5f, 3, 4, 5, 2, false); }
static VamanaSearchParameters s0() { return VamanaSearchParameters(SearchBufferConfig(7, 9), true, 11, 12); }
static VamanaIndexParameters i0() { return VamanaIndexParameters(6, b0(), s0()); }
static InvertedSearchParameters is0() { return InvertedSearchParameters(s0(), 2.5); }
static ClusteringParameters c0() { return ClusteringParameters(lib::Percent(0.25), 0.5, 21, 22, 23, 24, 25, 26, 1.25); }
static InvertedBuildParameters ib0() { return InvertedBuildParameters(c0(), b0()); }

// any change of one character of the schema, and schemas that are shorter or longer
template <typename T> static void schema(const T& x) {
    toml::table t = lib::save_to_table(x);
    std::string s = *t["__schema__"].value<std::string>();
    CHECK_(s == T::serialization_schema, "a table is saved under another schema");
    unsigned how = symx::pick(0, 3, "how");
    bool ok = false;
    if (how == 0) { char c = symx::any<char>("char"); size_t i = symx::pick(0, unsigned(s.size()) - 1, "position"); ok = s[i] == c; s[i] = c; }
    else if (how == 1) s.pop_back();
    else if (how == 2) s.push_back(symx::any<char>("char"));
    else s.clear();
    t.insert_or_assign("__schema__", s);
    bool r = refused([&] { auto y = load<T>(t); CHECK_(ok && same(x, y), "a table with another schema was loaded"); });
    CHECK_(r == !ok, "a table was refused although its schema is the right one");
    symx_reach(ok ? "loaded" : "refused");
}
ENTRY(schema_build) { schema(b0()); }
ENTRY(schema_search) { schema(s0()); }
ENTRY(schema_index) { schema(i0()); }
ENTRY(schema_inverted) { if (symx::pick(0, 1, "which")) schema(is0()); else schema(ib0()); }
ENTRY(schema_clustering) { schema(c0()); }

// any version with one-digit parts
static std::string version(unsigned (&v)[3]) {  // vX.Y.Z
    std::string s = "v";
    for (int i = 0; i < 3; ++i) { unsigned d = symx::in<uint8_t>(0, 9, "version"); v[i] = d; if (i) s += '.'; s += char('0' + d); }
    return s;
}
template <typename T, typename F> static void versions(const T& x, unsigned newest, bool older, F&& expected) {
    toml::table t = lib::save_to_table(x);
    unsigned v[3];
    t.insert_or_assign("__version__", version(v));
    bool ok = (v[0] == 0) & (v[1] == 0) & (older ? v[2] <= newest : v[2] == newest);
    bool r = refused([&] { auto y = load<T>(t); CHECK_(ok, "a table of an unsupported version was loaded"); CHECK_(same(expected(v[2]), y), "a table of an older version loads with other values"); });
    CHECK_(r == !ok, "a table of a supported version was refused");
    symx_reach(ok ? "loaded" : "refused");
}
ENTRY(version_build) { versions(b0(), 1, true, [](unsigned v) { auto b = b0(); if (v == 0) b.prune_to = b.graph_max_degree; return b; }); }
ENTRY(version_search) { versions(s0(), 1, true, [](unsigned v) { auto s = s0(); if (v == 0) { s.prefetch_lookahead_ = 4; s.prefetch_step_ = 1; } return s; }); }
ENTRY(version_inverted_search) { versions(is0(), 0, false, [](unsigned) { return is0(); }); }
ENTRY(version_clustering) { versions(c0(), 0, false, [](unsigned) { return c0(); }); }
ENTRY(version_inverted_build) { versions(ib0(), 0, false, [](unsigned) { return ib0(); }); }
// older tables of the index have another layout
ENTRY(version_index) {
    unsigned v[3];
    bool old = symx::pick(0, 1, "old layout");
    bool p = symx::pick(0, 1, "prune_to"), h = symx::pick(0, 1, "history");
    auto expected = i0();
    toml::table t;
    if (old) {
        size_t deg = symx::in<size_t>(0, MAX, "degree"), prune = symx::in<size_t>(0, MAX, "prune_to"), window = symx::in<size_t>(0, MAX, "window"), pool = symx::in<size_t>(0, MAX, "pool"), entry = symx::in<size_t>(0, MAX, "entry"), sw = symx::in<size_t>(0, MAX, "search window");
        float alpha = anyfloat("alpha");
        t.insert("__schema__", std::string("vamana_index_parameters"));
        t.insert("name", std::string("vamana config parameters"));
        t.insert("max_out_degree", int64_t(deg));
        t.insert("entry_point", int64_t(entry));
        t.insert("alpha", double(alpha));
        t.insert("construction_window_size", int64_t(window));
        t.insert("max_candidates", int64_t(pool));
        t.insert("default_search_window_size", int64_t(sw));
        t.insert("visited_set", true);
        if (p) t.insert("prune_to", int64_t(prune));
        if (h) t.insert("use_full_search_history", false);
        expected = VamanaIndexParameters(entry, VamanaBuildParameters(alpha, deg, window, pool, p ? prune : deg, !h), VamanaSearchParameters(SearchBufferConfig(sw), true, 4, 1));
    } else t = lib::save_to_table(i0());
    t.insert_or_assign("__version__", version(v));
    bool ok = (v[0] == 0) & (v[1] == 0) & (old ? v[2] <= 2 : v[2] == 3);
    bool r = refused([&] { auto y = load<VamanaIndexParameters>(t); CHECK_(ok, "a table of an unsupported version was loaded"); CHECK_(same(expected, y), "a table of an older version loads with other values"); });
    CHECK_(r == !ok, "a table of a supported version was refused");
    symx_reach(ok ? "loaded" : "refused");
}

// every field in turn is missing, of another type, or out of range
static void retype(toml::table& t, const std::string& key, unsigned kind) {
    switch (kind) {
        case 0: t.insert_or_assign(key, symx::any<int64_t>("other")); break;
        case 1: t.insert_or_assign(key, symx::any<double>("other")); break;
        case 2: t.insert_or_assign(key, true); break;
        case 3: t.insert_or_assign(key, std::string("v0.0.0")); break;
        case 4: t.insert_or_assign(key, toml::array{1}); break;
        case 5: t.insert_or_assign(key, toml::table{}); break;
        default: t.insert_or_assign(key, toml::date(2020, 1, 1)); break;
    }
}
template <typename T> static void fields(const T& x, std::string_view unused = {}) {
    toml::table t = lib::save_to_table(x);
    std::vector<std::string> keys;
    for (auto&& [k, v] : t) keys.push_back(std::string(k.str()));
    auto key = keys[symx::pick(0, unsigned(keys.size()) - 1, "field")];
    auto was = t[key].type();
    unsigned kind = symx::pick(0, 7, "tampering");
    bool ok = key == unused;
    if (kind == 7) t.erase(key);
    else { retype(t, key, kind); if (t[key].type() == was) return; }
    bool r = refused([&] { auto y = load<T>(t); CHECK_(ok && same(x, y), "a table with a missing or mistyped field was loaded"); });
    CHECK_(r == !ok, "a table was refused although all it needs is there");
    symx_reach(ok ? "loaded" : "refused");
}
ENTRY(fields_build) { fields(b0(), "name"); }
ENTRY(fields_search) { fields(s0()); }
ENTRY(fields_index) { fields(i0()); }
ENTRY(fields_inverted) { if (symx::pick(0, 1, "which")) fields(is0()); else fields(ib0()); }
ENTRY(fields_clustering) { fields(c0()); }
// a number outside the range of its field
template <typename T> static void ranges(const T& x) {
    toml::table t = lib::save_to_table(x);
    std::vector<std::string> keys;
    for (auto&& [k, v] : t) if (v.is_integer() || v.is_floating_point()) keys.push_back(std::string(k.str()));
    auto key = keys[symx::pick(0, unsigned(keys.size()) - 1, "field")];
    bool ok = true;
    int64_t i = 0;
    double d = 0;
    bool integer = t[key].is_integer();
    if (integer) {
        i = symx::any<int64_t>("value");
        t.insert_or_assign(key, i);
        ok = key == "seed" || i >= 0;
        if (key == "search_window_size" && std::is_same_v<T, VamanaSearchParameters>) ok = ok & (i <= 9);
        if (key == "search_buffer_capacity") ok = ok & (i >= 7);
    } else {
        d = symx::any<double>("value");
        symx_assume(d == d || key == "percent_centroids");
        if (key == "alpha") symx_assume(double(float(d)) == d);
        t.insert_or_assign(key, d);
        if (key == "percent_centroids") ok = (d >= 0) & (d <= 1);
    }
    bool r = refused([&] {
        auto y = load<T>(t);
        CHECK_(ok, "a number outside the range of its field was loaded");
        toml::table u = lib::save_to_table(y); toml::node& n = *u.get(key);
        CHECK_(integer ? n.as_integer()->get() == i : bits(n.as_floating_point()->get()) == bits(d), "a field loads as another number");
    });
    CHECK_(r == !ok, "a number within the range of its field was refused");
    symx_reach(ok ? "loaded" : "refused");
}
ENTRY(ranges_build) { ranges(b0()); }
ENTRY(ranges_search) { ranges(s0()); }
ENTRY(ranges_index) { ranges(i0()); }
ENTRY(ranges_inverted) { ranges(is0()); }
ENTRY(ranges_clustering) { ranges(c0()); }

// plain values
template <typename I> static void integer() {
    I x = symx::any<I>("value");
    bool fit = std::is_signed_v<I> || uint64_t(x) <= uint64_t(INT64_MAX);
    bool r = refused([&] { auto n = lib::save(x); CHECK_(fit && lib::load<I>(lib::node_view(n)) == x, "a saved number loads back as another"); });
    CHECK_(r == !fit, "a number cannot be saved and loaded");
    int64_t v = symx::any<int64_t>("stored");
    toml::table t;
    t.insert("x", v);
    bool in = std::is_signed_v<I> ? int64_t(I(v)) == v : v >= 0 && uint64_t(I(v)) == uint64_t(v);
    r = refused([&] { I y = lib::load<I>(lib::node_view_at(t, "x")); CHECK_(in && int64_t(y) == v, "a number that does not fit was loaded"); });
    CHECK_(r == !in, "a number that fits was refused");
    symx_reach("end");
}
ENTRY(plain_u64) { integer<uint64_t>(); }
ENTRY(plain_i64) { integer<int64_t>(); }
ENTRY(plain_u32) { integer<uint32_t>(); }
ENTRY(plain_i8) { integer<int8_t>(); }
ENTRY(plain_others) {
    lib::FullUnsigned f(symx::any<uint64_t>("unsigned"));
    auto n = lib::save(f);
    CHECK_(lib::load<lib::FullUnsigned>(lib::node_view(n)).value() == f.value(), "a saved number loads back as another");
    std::vector<uint32_t> v;
    for (unsigned i = 0, e = symx::pick(0, 3, "n"); i < e; ++i) v.push_back(symx::any<uint32_t>("element"));
    auto a = lib::save(v);
    auto w = lib::load<std::vector<uint32_t>>(lib::node_view(a));
    bool good = w.size() == v.size();
    for (size_t i = 0; good && i < v.size(); ++i) good &= v[i] == w[i];
    CHECK_(good, "a saved list loads back as another");
    float x = anyfloat("float");
    auto fn = lib::save(x);
    CHECK_(bits(lib::load<float>(lib::node_view(fn))) == bits(x), "a saved number loads back as another");
    std::array<uint8_t, 16> raw{};
    for (uint8_t i = 0; auto& r : raw) r = 17 * i++;
    lib::UUID u(raw);
    auto un = lib::save(u);
    CHECK_(lib::load<lib::UUID>(lib::node_view(un)) == u, "a saved identifier loads back as another");
    bool b = symx::any<uint8_t>("bool") & 1;
    auto bn = lib::save(b);
    CHECK_(lib::load<bool>(lib::node_view(bn)) == b, "a saved flag loads back as another");
    std::string s(3, 'x');
    for (char& c : s) c = symx::any<char>("char");
    auto sn = lib::save(s);
    CHECK_(lib::load<std::string>(lib::node_view(sn)) == s, "a saved text loads back as another");
    symx_reach("end");
}
// distances are saved by name only, and must not be mistaken for each other
template <typename A, typename B> static void distances() {
    toml::table t = lib::save_to_table(A());
    bool r = refused([&] { load<B>(t); });
    CHECK_(r == !(std::is_same_v<A, B>), "a saved distance loads back as another, or is refused");
}
ENTRY(distance_names) {
    distances<DistanceL2, DistanceL2>(); distances<DistanceL2, DistanceIP>(); distances<DistanceL2, DistanceCosineSimilarity>();
    distances<DistanceIP, DistanceL2>(); distances<DistanceIP, DistanceIP>(); distances<DistanceIP, DistanceCosineSimilarity>();
    distances<DistanceCosineSimilarity, DistanceL2>(); distances<DistanceCosineSimilarity, DistanceIP>(); distances<DistanceCosineSimilarity, DistanceCosineSimilarity>();
    symx_reach("end");
}
// the outermost table
ENTRY(outermost) {
    toml::table t = lib::save_to_table(b0());
    toml::table top;
    unsigned how = symx::pick(0, 2, "how");
    if (how == 0) top.insert("object", t);
    if (how == 1) top.insert("objects", t);
    if (how == 2) top.insert("object", int64_t(1));
    auto o = lib::ContextFreeSerializedObject(std::move(top));
    bool r = refused([&] { auto y = lib::load<VamanaBuildParameters>(o); CHECK_(same(y, b0()), "a saved parameter set loads back as another"); });
    CHECK_(r == (how != 0), "a file without a usable object was loaded, or one with it refused");
    CHECK_(bool(o.try_object()) == (how != 1) && bool(o.try_cast<toml::table>()) == (how == 0), "the object of a file is reported wrongly");
    symx_reach("end");
}
