// Files of vectors and other saved objects: written, damaged and read back.
#include "memfs.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/core/io.h"
#include "svs/core/translation.h"
#include "svs/index/inverted/clustering.h"
using namespace svs;
#ifndef MAXN
#define MAXN 2
#endif
#ifndef MAXD
#define MAXD 2
#endif
// A product of two large 32-bit fields is only explored up to these many bits of each.
#ifndef BIG
#define BIG 20
#endif
#ifndef RAW
#define RAW 16
#endif
static bool known(const std::exception&) { return true; }
// Run f; true if it refused with an exception a caller can catch.
template <typename F> static bool refused(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static void setup() { memfs::mkdir("/"); memfs::mkdir("/w"); }
static memfs::File* other_than_config(std::string dir) { for (auto& f : memfs::files) if (f.used && !f.dir && !f.table && memfs::parent(f.name) == dir) return &f; return nullptr; }
template <typename T> static bool bits_equal(T a, T b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
template <typename T> static T any_value() { if constexpr (std::is_same_v<T, Float16>) { uint16_t u = symx::any<uint16_t>("half"); T t; __builtin_memcpy(&t, &u, 2); return t; } else if constexpr (std::is_same_v<T, float>) { uint32_t u = symx::any<uint32_t>("bits"); float f; __builtin_memcpy(&f, &u, 4); return f; } else return symx::any<T>("value"); }
template <typename Data> static Data any_data(size_t n, size_t d) {
    Data x(n, d);
    std::vector<typename Data::element_type> v(d);
    for (size_t i = 0; i < n; ++i) { for (auto& e : v) e = any_value<typename Data::element_type>(); x.set_datum(i, std::span<const typename Data::element_type>(v.data(), d)); }
    return x;
}
template <typename A, typename B> static bool same(const A& a, const B& b) {
    if (a.size() != b.size() || a.dimensions() != b.dimensions()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.dimensions(); ++j) ok = ok & bits_equal(a.get_datum(i)[j], b.get_datum(i)[j]);
    return ok;
}
// -- datasets through save/load
template <typename T, typename Data = data::SimpleData<T>, typename Back = Data> static void keep() {
    setup();
    size_t n = symx::pick(0, MAXN, "n"), d = symx::pick(1, MAXD, "d");
    auto x = any_data<Data>(n, d);
    size_t k = symx::pick(0, 2, "in the directory before");
    if (k) { memfs::mkdir("/w/x"); auto* f = memfs::make("/w/x/other.svs"); f->size = f->written = k == 1 ? 0 : 20; for (size_t i = 0; i < f->size; ++i) f->data[i] = symx::any<uint8_t>("foreign"); }
    lib::save_to_disk(x, "/w/x");
    auto y = lib::load_from_disk<Back>("/w/x");
    CHECK_(same(x, y), "a reloaded dataset differs from the saved one");
    symx_reach("end");
}
ENTRY(keep_float) { keep<float>(); }
ENTRY(keep_half) { keep<Float16>(); }
ENTRY(keep_i8) { keep<int8_t>(); }
ENTRY(keep_u64) { keep<uint64_t>(); }
ENTRY(keep_blocked) { keep<float, data::BlockedData<float>>(); }
ENTRY(keep_mixed) { keep<float, data::BlockedData<float>, data::SimpleData<float>>(); }
ENTRY(keep_static) { setup(); auto x = any_data<data::SimpleData<float, 2>>(2, 2); lib::save_to_disk(x, "/w/x"); auto y = lib::load_from_disk<data::SimpleData<float, 2>>("/w/x"); CHECK_(same(x, y), "a reloaded dataset differs from the saved one"); CHECK_(refused([] { lib::load_from_disk<data::SimpleData<float, 3>>("/w/x"); }), "a dataset of another dimensionality accepted"); symx_reach("end"); }
ENTRY(keep_graph) {
    setup();
    size_t n = symx::pick(1, MAXN, "n"), k = symx::pick(1, MAXD, "degree");
    graphs::SimpleGraph<uint32_t> g(n, k);
    for (size_t i = 0; i < n; ++i) { size_t deg = symx::pick(0, k, "edges"); std::vector<uint32_t> v(deg); for (auto& e : v) e = symx::any<uint32_t>("edge"); g.replace_node(i, v); }
    lib::save_to_disk(g, "/w/x");
    auto h = lib::load_from_disk<graphs::SimpleGraph<uint32_t>>("/w/x");
    auto b = lib::load_from_disk<graphs::SimpleBlockedGraph<uint32_t>>("/w/x");
    auto check = [&](const auto& y) {
        CHECK_(y.n_nodes() == n && y.max_degree() == k, "a reloaded graph has another shape");
        for (size_t i = 0; i < n; ++i) {
            CHECK_(y.get_node_degree(i) == g.get_node_degree(i), "a reloaded graph has other edges");
            for (size_t j = 0; j < g.get_node_degree(i); ++j) CHECK_(y.get_node(i)[j] == g.get_node(i)[j], "a reloaded graph has other edges");
        }
    };
    check(h); check(b);
    CHECK_(refused([] { lib::load_from_disk<graphs::SimpleGraph<uint64_t>>("/w/x"); }), "a graph of another id type accepted");
    symx_reach("end");
}
using Translator = IDTranslator;
static Translator any_translator(size_t n) {
    Translator t;
    std::vector<size_t> ext; std::vector<uint32_t> in;
    for (size_t i = 0; i < n; ++i) { ext.push_back(symx::in<size_t>(0, 3, "external")); in.push_back(symx::in<uint32_t>(0, 3, "internal")); for (size_t j = 0; j < i; ++j) symx_assume(ext[i] != ext[j] && in[i] != in[j]); }
    t.insert(ext, in);
    return t;
}
ENTRY(keep_translator) {
    setup();
    auto t = any_translator(symx::pick(0, MAXN, "n"));
    lib::save_to_disk(t, "/w/x");
    auto u = lib::load_from_disk<Translator>("/w/x");
    CHECK_(u.size() == t.size(), "a reloaded translation has another size");
    for (size_t i = 0; i <= 3; ++i) {
        CHECK_(u.has_external(i) == t.has_external(i) && u.has_internal(i) == t.has_internal(i), "a reloaded translation knows other ids");
        if (t.has_external(i)) CHECK_(u.get_internal(i) == t.get_internal(i), "a reloaded translation maps differently");
        if (t.has_internal(i)) CHECK_(u.get_external(i) == t.get_external(i), "a reloaded translation maps back differently");
    }
    symx_reach("end");
}
using Clu = index::inverted::Clustering<uint32_t>;
static Clu any_clustering(size_t n, size_t per) {
    Clu c;
    for (size_t i = 0; i < n; ++i) {
        index::inverted::Cluster<uint32_t> k(symx::pick(0, 3, "centroid"));
        for (auto& [id, o] : c) symx_assume(id != k.centroid());
        size_t m = symx::pick(0, per, "members");
        for (size_t j = 0; j < m; ++j) k.push_back(Neighbor<uint32_t>(symx::any<uint32_t>("id"), symx::rawf("distance")));
        c.insert(std::move(k));
    }
    return c;
}
ENTRY(keep_clustering) {
    setup();
    Clu c = any_clustering(symx::pick(0, MAXN, "n"), MAXD);
    lib::save_to_disk(c, "/w/x");
    auto d = lib::load_from_disk<Clu>("/w/x");
    CHECK_(d.size() == c.size(), "a reloaded clustering has another size");
    for (auto& [id, k] : c) {
        auto& l = d.at(id);
        CHECK_(l.centroid() == k.centroid() && l.size() == k.size(), "a reloaded cluster differs");
        auto a = k.begin(); auto b = l.begin();
        for (; a != k.end(); ++a, ++b) CHECK_(a->id() == b->id() && bits_equal(a->distance(), b->distance()), "a reloaded cluster has other members");
    }
    symx_reach("end");
}
template <typename T> static void keep_blob() {
    setup();
    std::vector<T> v(symx::pick(0, 3, "n"));
    for (auto& e : v) e = any_value<T>();
    lib::save_to_disk(lib::BinaryBlobSaver<T>(v), "/w/x");
    std::vector<T> u = lib::load_from_disk<lib::BinaryBlobLoader<T>>("/w/x");
    CHECK_(u.size() == v.size(), "a reloaded blob has another size");
    for (size_t i = 0; i < v.size(); ++i) CHECK_(bits_equal(u[i], v[i]), "a reloaded blob differs");
    symx_reach("end");
}
ENTRY(keep_blob_u8) { keep_blob<uint8_t>(); }
ENTRY(keep_blob_float) { keep_blob<float>(); }
// -- the same with the data file cut short
template <typename F> static void cut(F&& load) {
    auto* f = other_than_config("/w/x");
    static const size_t near[] = {0, 1, 7, 8, 23, 24, 31, 40, 1023, 1024, 1025};
    size_t k = symx::pick(0, sizeof near / sizeof *near + 8, "cut"), full = f->size, len = k < sizeof near / sizeof *near ? near[k] : full - 1 - (k - sizeof near / sizeof *near);
    if (len >= full) return;
    f->size = f->written = len;
    CHECK_(refused(load), "a truncated file accepted");
    symx_reach("cut");
}
ENTRY(cut_data) { setup(); lib::save_to_disk(any_data<data::SimpleData<float>>(MAXN, MAXD), "/w/x"); cut([] { lib::load_from_disk<data::SimpleData<float>>("/w/x"); }); }
ENTRY(cut_blocked) { setup(); lib::save_to_disk(any_data<data::BlockedData<int8_t>>(MAXN, MAXD), "/w/x"); cut([] { lib::load_from_disk<data::BlockedData<int8_t>>("/w/x"); }); }
ENTRY(cut_translator) { setup(); lib::save_to_disk(any_translator(MAXN), "/w/x"); cut([] { lib::load_from_disk<Translator>("/w/x"); }); }
ENTRY(cut_clustering) { setup(); Clu c = any_clustering(MAXN, MAXD); lib::save_to_disk(c, "/w/x"); cut([] { lib::load_from_disk<Clu>("/w/x"); }); }
ENTRY(cut_blob) { setup(); std::vector<uint32_t> v(3); for (auto& e : v) e = symx::any<uint32_t>("v"); lib::save_to_disk(lib::BinaryBlobSaver<uint32_t>(v), "/w/x"); cut([] { std::vector<uint32_t> u = lib::load_from_disk<lib::BinaryBlobLoader<uint32_t>>("/w/x"); }); }
// -- vecs and binary files
template <typename T> static void through_vecs() {
    setup();
    size_t n = symx::pick(1, MAXN, "n"), d = symx::pick(1, MAXD, "d");
    auto x = any_data<data::SimpleData<T>>(n, d);
    { auto w = io::vecs::VecsFile("/w/x.fvecs").writer<T>(d); for (size_t i = 0; i < n; ++i) w << x.get_datum(i); }
    CHECK_(memfs::find("/w/x.fvecs")->size == n * (4 + d * sizeof(T)), "vecs file of the wrong length");
    auto y = data::SimpleData<T>::load("/w/x.fvecs");
    CHECK_(same(x, y), "a dataset read from a vecs file differs from the written one");
    symx_reach("end");
}
ENTRY(vecs_float) { through_vecs<float>(); }
ENTRY(vecs_half) { through_vecs<Float16>(); }
ENTRY(vecs_u8) { through_vecs<uint8_t>(); }
ENTRY(vecs_u64) { through_vecs<uint64_t>(); }
template <typename T> static void through_binary() {
    setup();
    size_t n = symx::pick(0, MAXN, "n"), d = symx::pick(1, MAXD, "d");
    auto x = any_data<data::SimpleData<T>>(n, d);
    { auto w = io::binary::BinaryFile("/w/x.bin").writer<T>(n, d); for (size_t i = 0; i < n; ++i) w << x.get_datum(i); }
    CHECK_(memfs::find("/w/x.bin")->size == 8 + n * d * sizeof(T), "binary file of the wrong length");
    auto y = data::SimpleData<T>::load("/w/x.bin");
    CHECK_(same(x, y), "a dataset read from a binary file differs from the written one");
    symx_reach("end");
}
ENTRY(binary_float) { through_binary<float>(); }
ENTRY(binary_half) { through_binary<Float16>(); }
ENTRY(binary_i8) { through_binary<int8_t>(); }
// -- files of arbitrary bytes: accepted exactly when consistent, and then read as they are
static memfs::File* any_file(const char* name, size_t len) { auto* f = memfs::make(name); f->size = f->written = len; for (size_t i = 0; i < len; ++i) f->data[i] = symx::any<uint8_t>("byte"); return f; }
static uint32_t u32(const memfs::File* f, size_t at) { uint32_t x; __builtin_memcpy(&x, f->data + at, 4); return x; }
static uint64_t u64(const memfs::File* f, size_t at) { uint64_t x; __builtin_memcpy(&x, f->data + at, 8); return x; }
template <typename T> static void raw_vecs() {
    setup();
    size_t len = symx::pick(1, RAW, "length");
    auto* f = any_file("/w/x.vecs", len);
    std::optional<data::SimpleData<T>> y;
    bool no = refused([&] { y.emplace(data::SimpleData<T>::load("/w/x.vecs")); });
    bool ok = false; size_t n = 0, d = 0;
    if (len >= 4) {
        d = u32(f, 0);
        // every length that is possible at all
        for (n = 1; n * 4 <= len; ++n) if (n * (4 + d * sizeof(T)) == len) { ok = true; for (size_t i = 1; i < n; ++i) if (u32(f, i * (len / n)) != d) ok = false; break; }
    }
    CHECK_(no == !ok, ok ? "a well-formed vecs file refused" : "a malformed vecs file accepted");
    if (!ok) { symx_reach("refused"); return; }
    CHECK_(y->size() == n && y->dimensions() == d, "a vecs file read with the wrong shape");
    for (size_t i = 0; i < n; ++i) CHECK_(__builtin_memcmp(y->get_datum(i).data(), f->data + i * (len / n) + 4, len / n - 4) == 0, "a vecs file read wrongly");
    symx_reach("accepted");
}
ENTRY(raw_vecs_float) { raw_vecs<float>(); }
ENTRY(raw_vecs_u8) { raw_vecs<uint8_t>(); }
ENTRY(raw_vecs_half) { raw_vecs<Float16>(); }
// Count and dimensions of a header: one of them small (and fixed on this path), or both too large for any
// file here. Shapes without content are kept small.
template <typename U> static std::pair<U, U> any_shape() {
    size_t which = symx::pick(0, 2, "small count, small dimensions or neither");
    U n, d;
    if (which == 2) { n = symx::any<U>("count"); d = symx::any<U>("dimensions"); symx_assume((n > RAW) & (d > RAW)); if (sizeof(U) == 4) symx_assume((n < (1u << BIG)) & (d < (1u << BIG))); return {n, d}; }
    U v = symx::pick(0, RAW, which ? "dimensions" : "count"), w = symx::any<U>(which ? "count" : "dimensions");
    if (v == 0) symx_assume(w <= 3);
    else if (which) symx_assume(w > RAW);
    return which ? std::pair<U, U>{w, v} : std::pair<U, U>{v, w};
}
template <typename T> static void put(memfs::File* f, size_t at, T x) { __builtin_memcpy(f->data + at, &x, sizeof x); }
template <typename T> static void raw_binary() {
    setup();
    size_t len = symx::pick(1, RAW, "length");
    auto* f = any_file("/w/x.bin", len);
    bool ok = len >= 8; size_t n = 0, d = 0;
    if (ok) { uint32_t a, b; std::tie(a, b) = any_shape<uint32_t>(); put(f, 0, a); put(f, 4, b); n = a; d = b; }
    std::optional<data::SimpleData<T>> y;
    bool no = refused([&] { y.emplace(data::SimpleData<T>::load("/w/x.bin")); });
    if (ok) { ok = n == 0 || d == 0 ? len == 8 : n <= len && d <= len && n * d * sizeof(T) == len - 8; }
    CHECK_(no || ok, "a malformed binary file accepted");
    if (n != 0 && d != 0) CHECK_(!no || !ok, "a well-formed binary file refused");
    if (no) { symx_reach("refused"); return; }
    CHECK_(y->size() == n && y->dimensions() == d, "a binary file read with the wrong shape");
    if (n) for (size_t i = 0; i < n; ++i) CHECK_(__builtin_memcmp(y->get_datum(i).data(), f->data + 8 + i * d * sizeof(T), d * sizeof(T)) == 0, "a binary file read wrongly");
    symx_reach("accepted");
}
ENTRY(raw_binary_float) { raw_binary<float>(); }
ENTRY(raw_binary_u8) { raw_binary<uint8_t>(); }

ENTRY(saved_vecs) {
    setup();
    size_t n = symx::pick(1, MAXN, "n"), d = symx::pick(1, MAXD, "d");
    auto x = any_data<data::SimpleData<float>>(n, d);
    io::save_vecs(x, "/w/x.fvecs");
    CHECK_(same(x, data::SimpleData<float>::load("/w/x.fvecs")), "a dataset read from a vecs file differs from the written one");
    symx_reach("end");
}
ENTRY(saved_results) {
    setup();
    size_t n = symx::pick(1, MAXN, "n"), k = symx::pick(1, MAXD, "k");
    auto r = QueryResult<size_t>(n, k);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) { r.index(i, j) = symx::any<size_t>("id"); r.distance(i, j) = 0; }
    bool fits = true;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) fits = fits & (r.index(i, j) <= UINT32_MAX);
    bool no = refused([&] { r.save_vecs("/w/x.ivecs"); });
    CHECK_(no == !fits, "ids that do not fit the file silently cut");
    if (no) return;
    auto y = data::SimpleData<uint32_t>::load("/w/x.ivecs");
    CHECK_(y.size() == n && y.dimensions() == k, "saved results have another shape");
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) CHECK_(y.get_datum(i)[j] == r.index(i, j), "saved results differ");
    symx_reach("end");
}
// A native file with any header, followed by a few bytes.
template <typename Data> static void raw_native() {
    using T = typename Data::element_type;
    setup();
    size_t tail = symx::pick(0, std::is_same_v<Data, data::SimpleData<T>> ? RAW : RAW / 4, "bytes of data");
    size_t schema = symx::pick(0, 2, "schema");
    bool v1 = schema == 1, test = schema == 0;
    size_t hs = v1 ? sizeof(io::v1::Header) : sizeof(io::vtest::Header);
    auto* f = memfs::make("/w/x.svs");
    f->size = f->written = hs + tail;
    for (size_t i = 0; i < 64; ++i) f->data[i] = symx::any<uint8_t>("byte");
    for (size_t i = 64; i < hs; ++i) f->data[i] = 0;
    for (size_t i = 0; i < tail; ++i) f->data[hs + i] = symx::any<uint8_t>("byte");
    size_t n = 0, d = 0;
    if (schema == 2) { uint64_t m = symx::any<uint64_t>("magic"); symx_assume((m != io::v1::magic_number) & (m != io::vtest::magic_number)); put(f, 0, m); }
    else {
        put(f, 0, v1 ? io::v1::magic_number : io::vtest::magic_number);
        uint64_t a, b; std::tie(a, b) = any_shape<uint64_t>(); n = a; d = b;
        put(f, v1 ? 24 : 8, n); put(f, v1 ? 32 : 16, d);
    }
    std::optional<Data> y;
    bool no = refused([&] { y.emplace(Data::load("/w/x.svs")); });
    if (!test && !v1) { CHECK_(no, "a file of unknown kind accepted"); symx_reach("unknown"); return; }
    bool ok = n == 0 || d == 0 || (n <= tail && d <= tail && n * d * sizeof(T) <= tail);
    CHECK_(no || ok, "a native file too short for its header accepted");
    if (n && d) CHECK_(!no || !ok, "a native file refused");
    if (no) { symx_reach("refused"); return; }
    CHECK_(y->size() == n && y->dimensions() == d, "a native file read with the wrong shape");
    if (d) for (size_t i = 0; i < n; ++i) CHECK_(__builtin_memcmp(y->get_datum(i).data(), f->data + hs + i * d * sizeof(T), d * sizeof(T)) == 0, "a native file read wrongly");
    symx_reach("accepted");
}
ENTRY(raw_native_float) { raw_native<data::SimpleData<float>>(); }
ENTRY(raw_native_i8) { raw_native<data::SimpleData<int8_t>>(); }
ENTRY(raw_native_blocked) { raw_native<data::BlockedData<uint16_t>>(); }
