// Vector storage against a model: any short history of writes, resizes and compactions.
#include "symx.h"
#include "svs/core/data.h"
#include "svs/core/compact.h"
#include "svs/core/allocator.h"
#include <vector>
#include <bit>
#include <cstring>
#ifndef STEPS
#define STEPS 2
#endif
#ifndef NN
#define NN 3
#endif
using namespace svs;
template <typename T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <typename T> std::vector<T> row(size_t d) { std::vector<T> v; for (size_t i = 0; i < d; ++i) v.push_back(symx::any<T>("x")); return v; }
// What the storage must hold; rows that were never written since they came into being are unknown.
template <typename D> struct Model {
    using T = std::remove_const_t<typename D::element_type>;
    D& data; size_t dims; std::vector<std::vector<T>> rows;
    Model(D& d, size_t n, size_t dims) : data{d}, dims{dims}, rows(n) {}
    void check() {
        const D& c = data;
        CHECK_(c.size() == rows.size() && c.dimensions() == dims, "the shape of the dataset is wrong");
        auto r = c.eachindex();
        CHECK_(r.start() == 0 && r.stop() == rows.size(), "the valid indices do not match the size");
        CHECK_(c.capacity() >= c.size(), "the capacity is below the size");
        for (size_t i = 0; i < rows.size(); ++i) {
            auto s = c.get_datum(i); auto m = data.get_datum(i);
            bool ok = s.size() == dims && m.size() == dims && s.data() == m.data();
            CHECK_(ok, "a stored vector has the wrong length");
            if (rows[i].empty()) { for (size_t k = 0; k < dims; ++k) data.get_datum(i)[k] = T(); rows[i].assign(dims, T()); continue; } // all of it must be there
            for (size_t k = 0; k < dims; ++k) ok &= same<T>(s[k], rows[i][k]);
            CHECK_(ok, "a stored vector reads back differently");
        }
    }
    void set(size_t i) { auto v = row<T>(dims); data.set_datum(i, v); rows[i] = v; }
    void set_span(size_t i) { auto v = row<T>(dims); data.set_datum(i, std::span<const T>(v)); rows[i] = v; }
    void refuse(size_t i, size_t wrong) {
        auto v = row<T>(wrong); bool threw = false;
        try { data.set_datum(i, v); } catch (const ANNException&) { threw = true; }
        CHECK_(threw, "a vector of the wrong length was accepted");
        symx_reach("refused");
    }
    void resize(size_t n) { data.resize(n); rows.resize(n); }
    void compact(size_t low) {
        std::vector<uint32_t> keep; std::vector<std::vector<T>> now;
        for (size_t i = 0; i < rows.size(); ++i) if (symx::pick(0, 1, "keep")) { keep.push_back(i); now.push_back(rows[i]); }
        if (keep.size() < low) return;
        size_t batch = symx::pick(1, 3, "batch");
        data.compact(lib::as_const_span(keep), batch);
        data.resize(keep.size()); rows = now;
    }
};
template <typename D> void fill(Model<D>& m) { for (size_t i = 0; i < m.rows.size(); ++i) m.set(i); }
template <typename D, size_t LOW = 0> void history(D& d, size_t n, size_t dims) {
    Model<D> m(d, n, dims);
    fill(m); m.check();
    for (size_t s = 0; s < STEPS; ++s) {
        unsigned op = symx::pick(0, 4, "op");
        if (op == 0 && m.rows.size()) { size_t i = symx::pick(0, m.rows.size() - 1, "index"); if (s % 2) m.set(i); else m.set_span(i); }
        else if (op == 1) m.resize(symx::pick(LOW, NN + 2, "new size"));
        else if (op == 2) d.shrink_to_fit();
        else if (op == 3) m.compact(LOW);
        else if (op == 4 && m.rows.size()) m.refuse(symx::pick(0, m.rows.size() - 1, "index"), symx::pick(0, 1, "longer") ? dims + 1 : dims - 1);
        m.check();
    }
    symx_reach("end");
}
template <typename T, size_t E = Dynamic> using Flat = data::SimpleData<T, E, lib::Allocator<T>>;
template <typename T, size_t E = Dynamic> using Block = data::BlockedData<T, E, lib::Allocator<T>>;
template <typename T, size_t E = Dynamic> Block<T, E> blocked(size_t n, size_t d, size_t bits) {
    return Block<T, E>(n, d, data::Blocked<lib::Allocator<T>>(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(bits)}));
}
ENTRY(flat_f32) { size_t n = symx::pick(0, NN, "n"); Flat<float> d(n, 2); history(d, n, 2); }
ENTRY(flat_i8) { size_t n = symx::pick(1, NN, "n"); Flat<int8_t, 3> d(n, 3); history(d, n, 3); }
ENTRY(flat_huge) { size_t n = symx::pick(1, 2, "n"); data::SimpleData<uint16_t, Dynamic, HugepageAllocator<uint16_t>> d(n, 2); history<decltype(d), 1>(d, n, 2); }
ENTRY(block_f32) { size_t n = symx::pick(0, NN, "n"), b = symx::pick(3, 5, "block"); auto d = blocked<float>(n, 2, b); history(d, n, 2); }
ENTRY(block_i8) { size_t n = symx::pick(1, NN, "n"), b = symx::pick(2, 4, "block"); auto d = blocked<int8_t, 3>(n, 3, b); history(d, n, 3); }
// the generic compaction over a map of any order-preserving choice, with threads and every size of working memory
ENTRY(compact_threads) {
    auto d = blocked<float>(4, 1, 3); Model<Block<float>> m(d, 4, 1); fill(m);
    std::vector<uint32_t> keep; std::vector<std::vector<float>> now;
    for (size_t i = 0; i < 4; ++i) if (symx::pick(0, 1, "keep")) { keep.push_back(i); now.push_back(m.rows[i]); }
    auto pool = threads::NativeThreadPool(2);
    d.compact(lib::as_const_span(keep), pool, symx::pick(1, 5, "batch"));
    d.resize(keep.size()); m.rows = now; m.check();
    symx_reach("end");
}
ENTRY(compact_limits) {
    bool flat = symx::pick(0, 1, "flat"); Flat<float> d(3, 1); auto b = blocked<float>(3, 1, 3);
    Model<Flat<float>> m(d, 3, 1); Model<Block<float>> n(b, 3, 1); fill(m); fill(n);
    std::vector<uint32_t> keep; if (symx::pick(0, 1, "some")) keep = {1, 2};
    bool threw = false;
    try { if (flat) d.compact(lib::as_const_span(keep), size_t(0)); else b.compact(lib::as_const_span(keep), size_t(0)); } catch (const ANNException&) { threw = true; }
    if (keep.empty()) CHECK_(!threw, "compacting to nothing was refused");
    if (threw || keep.empty()) { m.check(); n.check(); }
    Flat<float> buf(2, symx::pick(1, 2, "buffer dims")); threads::SequentialThreadPool pool;
    if (buf.dimensions() == 2 && flat) {
        threw = false;
        keep = {1, 2};
        try { compact_data(d, buf, lib::as_const_span(keep), pool); } catch (const ANNException&) { threw = true; }
        CHECK_(threw, "working memory of the wrong shape was accepted");
    }
    symx_reach("end");
}
// a symbolic index reaches exactly the vector of that index
template <typename D> void anywhere(D& d, size_t n, size_t dims) {
    Model<D> m(d, n, dims); fill(m);
    uint8_t i = symx::any<uint8_t>("i"), j = symx::any<uint8_t>("j");
    symx_assume(i < n && j < n);
    auto v = row<float>(dims); d.set_datum(i, v);
    auto got = std::as_const(d).get_datum(j);
    bool ok = got.size() == dims;
    for (size_t k = 0; k < dims; ++k) {
        float want = i == j ? v[k] : 0;
        if (i != j) for (size_t r = 0; r < n; ++r) if (r == j) want = m.rows[r][k];
        ok &= same(got[k], want);
    }
    CHECK_(ok, "writing one vector changed another or was lost");
    symx_reach("end");
}
ENTRY(any_flat) { Flat<float> d(5, 2); anywhere(d, 5, 2); }
ENTRY(any_block) { auto d = blocked<float>(5, 2, 4); anywhere(d, 5, 2); }
ENTRY(any_static) { auto d = blocked<float, 3>(5, 3, 5); anywhere(d, 5, 3); }
// writing through another element type stores the same numbers or refuses
template <typename T, typename U> void convert() {
    auto d = blocked<T>(2, 2, 4); Flat<T> f(2, 2);
    std::vector<T> old{T(1), T(2)}; d.set_datum(0, old); f.set_datum(0, old);
    std::vector<U> v{symx::any<U>("u"), symx::any<U>("v")};
    bool t1 = false, t2 = false;
    try { d.set_datum(1, v); } catch (const std::exception&) { t1 = true; }
    try { f.set_datum(1, v); } catch (const std::exception&) { t2 = true; }
    bool fits = true;
    for (auto x : v) fits &= std::in_range<T>(x);
    CHECK_(t1 == !fits && t2 == !fits, "a value that does not fit was accepted, or one that fits refused");
    if (fits) for (size_t k = 0; k < 2; ++k) CHECK_(std::cmp_equal(d.get_datum(1)[k], v[k]) && std::cmp_equal(f.get_datum(1)[k], v[k]), "a stored number changed in conversion");
    CHECK_(d.get_datum(0)[0] == 1 && d.get_datum(0)[1] == 2 && f.get_datum(0)[0] == 1 && f.get_datum(0)[1] == 2, "writing one vector changed another");
    symx_reach(fits ? "end" : "refused");
}
ENTRY(convert_i32_i8) { convert<int8_t, int32_t>(); }
ENTRY(convert_i8_u8) { convert<uint8_t, int8_t>(); }
ENTRY(convert_u64_i32) { convert<int32_t, uint64_t>(); }
ENTRY(convert_float) {
    Flat<float> d(1, 2); std::vector<int16_t> v{symx::any<int16_t>("u"), symx::any<int16_t>("v")};
    d.set_datum(0, v);
    CHECK_(d.get_datum(0)[0] == float(v[0]) && d.get_datum(0)[1] == float(v[1]), "a stored number changed in conversion");
    symx_reach("end");
}
// views over a selection of a dataset
template <typename D> void selection(D& d, size_t n) {
    Model<D> m(d, n, 2); fill(m);
    size_t k = symx::pick(0, 3, "indices");
    std::vector<int32_t> ids; bool fine = true;
    for (size_t i = 0; i < k; ++i) { ids.push_back(symx::any<int32_t>("id")); fine &= ids[i] >= 0 && ids[i] < int32_t(n); }
    bool threw = false;
    try {
        auto v = data::make_view(d, ids); auto c = data::make_const_view(d, ids);
        CHECK_(fine, "a view of an index outside the dataset was accepted");
        CHECK_(v.size() == k && c.size() == k && v.dimensions() == 2 && c.dimensions() == 2 && v.eachindex().size() == k, "a view has the wrong shape");
        for (size_t i = 0; i < k; ++i) {
            size_t id = symx_concretize(ids[i]);
            CHECK_(v.parent_id(i) == id && c.parent_id(i) == id, "a view reports another parent id");
            bool ok = true;
            for (size_t e = 0; e < 2; ++e) ok &= same(v.get_datum(i)[e], m.rows[id][e]) && same(c.get_datum(i)[e], m.rows[id][e]);
            CHECK_(ok, "a view shows another vector");
        }
        if (k) {
            auto x = row<float>(2); v.set_datum(k - 1, x); m.rows[symx_concretize(ids[k - 1])] = x;
        }
    } catch (const ANNException&) { threw = true; }
    CHECK_(threw == !fine, "a view of valid indices was refused");
    m.check();
    symx_reach(threw ? "refused" : "end");
}
ENTRY(view_flat) { Flat<float> d(3, 2); selection(d, 3); }
ENTRY(view_block) { auto d = blocked<float>(3, 2, 4); selection(d, 3); }
ENTRY(view_range) {
    Flat<float> d(3, 1); Model<Flat<float>> m(d, 3, 1); fill(m);
    uint32_t a = symx::any<uint32_t>("a"), b = symx::any<uint32_t>("b");
    symx_assume(a < b);
    bool threw = false;
    try {
        auto v = data::make_view(d, threads::UnitRange<uint32_t>(a, b));
        CHECK_(b <= 3, "a view outside the dataset was accepted");
        size_t s = symx_concretize(a), n = symx_concretize(b) - s;
        CHECK_(v.size() == n, "a view has the wrong shape");
        for (size_t i = 0; i < n; ++i) CHECK_(same(v.get_datum(i)[0], m.rows[s + i][0]), "a view shows another vector");
    } catch (const ANNException&) { threw = true; }
    CHECK_(threw == (b > 3), "a view of valid indices was refused");
    symx_reach(threw ? "refused" : "end");
}
ENTRY(alias) {
    Flat<float> d(3, 2); Model<Flat<float>> m(d, 3, 2); fill(m);
    if (symx::pick(0, 1, "shrink")) { m.resize(2); }
    auto c = d.cview(); auto w = d.view();
    bool ok = c.size() == d.size() && w.size() == d.size() && c.dimensions() == 2 && w.dimensions() == 2;
    CHECK_(ok, "a view has the wrong shape");
    for (size_t i = 0; i < d.size(); ++i) for (size_t k = 0; k < 2; ++k) ok &= same<float>(c.get_datum(i)[k], m.rows[i][k]);
    CHECK_(ok, "a view shows another vector");
    auto x = row<float>(2); w.set_datum(1, x); m.rows[1] = x; m.check();
    AnonymousArray<2> a(d);
    CHECK_(a.size(0) == d.size() && a.size(1) == 2, "an erased dataset has another shape");
    data::ConstSimpleDataView<float> back(a);
    for (size_t i = 0; i < d.size(); ++i) for (size_t k = 0; k < 2; ++k) ok &= back.size() == d.size() && same<float>(back.get_datum(i)[k], m.rows[i][k]);
    CHECK_(ok, "an erased dataset has other contents");
    bool threw = false;
    try { data::ConstSimpleDataView<int32_t> bad(a); } catch (const ANNException&) { threw = true; }
    CHECK_(threw, "an erased dataset was read as another type");
    symx_reach("end");
}
ENTRY(equality) {
    Flat<float> a(2, 2); auto b = blocked<float>(2, 2, 3); Flat<float> e(2, 2);
    Model<Flat<float>> m(a, 2, 2), o(e, 2, 2); fill(m); fill(o);
    bool eq = true;
    for (size_t i = 0; i < 2; ++i) for (size_t k = 0; k < 2; ++k) eq &= m.rows[i][k] == o.rows[i][k];
    CHECK_((a == e) == eq, "comparing datasets gives the wrong answer");
    Flat<float> longer(3, 2), wider(2, 3);
    CHECK_(!(a == longer) && !(a == wider), "datasets of different shapes compare equal");
    for (size_t i = 0; i < 2; ++i) b.set_datum(i, a.get_datum(i));
    auto c = b.copy(); Model<Block<float>> mc(c, 2, 2); mc.rows = m.rows; mc.check();
    c.set_datum(0, row<float>(2)); Model<Block<float>> mb(b, 2, 2); mb.rows = m.rows; mb.check();
    symx_reach("end");
}
ENTRY(shapes) {
    size_t d = symx::pick(1, 5, "dims"); bool t1 = false, t2 = false;
    try { Flat<float, 3> x(1, d); } catch (const ANNException&) { t1 = true; }
    try { auto x = blocked<float, 3>(1, d, 6); } catch (const ANNException&) { t2 = true; }
    CHECK_(t1 == (d != 3) && t2 == (d != 3), "a dataset with a fixed length accepted another one");
    Flat<float> none; CHECK_(none.size() == 0 && none.capacity() == 0, "a default constructed dataset is not empty");
    bool t3 = false; // a block that cannot hold one vector
    try { auto x = blocked<float>(1, d, 2); Model<Block<float>> m(x, 1, d); fill(m); m.check(); } catch (const ANNException&) { t3 = true; }
    CHECK_(t3 == (d > 1), "a block smaller than a vector was accepted");
    symx_reach("end");
}
// copies, moves, swaps of owning datasets
ENTRY(ownership) {
    size_t live = symx_live_heap();
    {
        Flat<float> a(2, 2), b(1, 1); Model<Flat<float>> m(a, 2, 2), n(b, 1, 1); fill(m); fill(n);
        switch (symx::pick(0, 5, "op")) {
        case 0: { Flat<float> c(a); Model<Flat<float>> k(c, 2, 2); k.rows = m.rows; k.check(); k.set(0); m.check(); break; }
        case 1: { b = a; n.rows = m.rows; n.dims = 2; n.check(); n.set(1); m.check(); break; }
        case 2: { b = std::move(a); n.rows = m.rows; n.dims = 2; n.check(); break; }
        case 3: { Flat<float> c(std::move(a)); Model<Flat<float>> k(c, 2, 2); k.rows = m.rows; k.check(); break; }
        case 4: { std::swap(a, b); std::swap(m.rows, n.rows); std::swap(m.dims, n.dims); m.check(); n.check(); break; }
        case 5: { auto& r = a; a = r; m.check(); break; }
        }
    }
    CHECK_(symx_live_heap() == live, "storage is leaked");
    symx_reach("end");
}
ENTRY(arrays) {
    // three dimensions, one of them static: an element is reached through its indices only
    size_t n0 = symx::pick(1, 3, "n0"), n2 = symx::pick(1, 3, "n2");
    auto a = make_dense_array<int32_t>(n0, lib::Val<2>(), n2);
    CHECK_(a.size() == n0 * 2 * n2 && a.bytes() == 4 * a.size() && getsize<0>(a) == n0 && getsize<1>(a) == 2 && getsize<2>(a) == n2, "an array has the wrong shape");
    auto s = a.strides();
    CHECK_(s[2] == 1 && s[1] == n2 && s[0] == 2 * n2, "the strides are wrong");
    for (size_t i = 0; i < n0; ++i) for (size_t j = 0; j < 2; ++j) for (size_t k = 0; k < n2; ++k) a.at(i, j, k) = int(100 * i + 10 * j + k);
    uint8_t i = symx::any<uint8_t>("i"), j = symx::any<uint8_t>("j"), k = symx::any<uint8_t>("k");
    symx_assume(i < n0 && j < 2 && k < n2);
    const auto& c = a;
    CHECK_(c.at(i, j, k) == 100 * i + 10 * j + k, "an element reads back differently");
    CHECK_(c.slice(i, j).size() == n2 && c.slice(i, j)[k] == 100 * i + 10 * j + k, "a slice reads back differently");
    CHECK_(&c.first() == c.begin() && &c.last() == c.end() - 1 && c.end() - c.begin() == ptrdiff_t(c.size()), "the range of an array is wrong");
    auto b = a; decltype(a) d = make_dense_array<int32_t>(size_t(1), lib::Val<2>(), size_t(1)); d = a;
    a.at(i, j, k) = -1;
    CHECK_(b.at(i, j, k) == 100 * i + 10 * j + k && d.at(i, j, k) == 100 * i + 10 * j + k, "copies of an array share their elements");
    auto v = a.view(); v.at(i, j, k) = -2;
    CHECK_(a.at(i, j, k) == -2 && a.cview().at(i, j, k) == -2, "a view of an array does not show it");
    swap(b, a);
    CHECK_(b.at(i, j, k) == -2 && a.at(i, j, k) == 100 * i + 10 * j + k, "swapping arrays loses elements");
    symx_reach("end");
}
