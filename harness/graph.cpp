// Graph storage: any history of a few operations over any adjacency lists.
#include "symx.h"
#include "svs/core/graph/graph.h"
#include <vector>
#ifndef NN
#define NN 3
#endif
#ifndef DEG
#define DEG 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
using namespace svs;
using namespace svs::graphs;

template <typename G, typename I> struct Model {
    G& g;
    size_t deg;
    std::vector<std::vector<I>> rows;
    Model(G& g, size_t n, size_t deg) : g{g}, deg{deg}, rows(n) {}
    void check() {
        const G& c = g;
        CHECK_(c.n_nodes() == rows.size() && c.max_degree() == deg, "size or degree of the graph changed");
        bool lens = true, same = true, edges = true;
        for (size_t i = 0; i < rows.size(); ++i) {
            auto l = c.get_node(I(i));
            lens &= l.size() == rows[i].size() && c.get_node_degree(I(i)) == rows[i].size();
            if (!lens) break;
            for (size_t j = 0; j < l.size(); ++j) {
                bool in = false;
                for (auto x : rows[i]) in |= (x == l[j]);
                same &= in;
            }
            for (auto x : rows[i]) edges &= c.has_edge(I(i), x);
            for (size_t a = 0; a < l.size(); ++a) for (size_t b = 0; b < a; ++b) same &= (l[a] != l[b]);
        }
        CHECK_(lens, "an adjacency list has the wrong length");
        CHECK_(same, "an adjacency list holds other edges than those accepted");
        CHECK_(edges, "has_edge() denies a stored edge");
    }
    std::vector<I> list(size_t maxlen) {
        size_t k = symx::pick(0, maxlen, "len");
        std::vector<I> v;
        for (size_t i = 0; i < k; ++i) {
            I x = symx::any<I>("id");
            for (auto y : v) symx_assume(x != y);
            v.push_back(x);
        }
        return v;
    }
    void replace(size_t i, const std::vector<I>& v) {
        g.replace_node(I(i), v);
        rows[i].assign(v.begin(), v.begin() + std::min(v.size(), deg));
    }
    void add(size_t s) {
        I d = symx::any<I>("dst");
        bool ok = d < rows.size();
        bool threw = false;
        size_t r = 0;
        try { r = g.add_edge(I(s), d); } catch (const ANNException&) { threw = true; }
        if (d == s) { CHECK_(!threw && r == rows[s].size(), "a self edge was accepted"); return; }
        CHECK_(threw == !ok, "an edge to a node outside the graph was accepted, or a valid one refused");
        if (threw) { symx_reach("refused"); return; }
        bool dup = false;
        for (auto x : rows[s]) dup |= (x == d);
        if (!dup && rows[s].size() < deg) { rows[s].push_back(d); symx_reach("added"); }
        CHECK_(r == rows[s].size(), "the reported number of neighbors is wrong");
    }
    void clear(size_t i) { g.clear_node(I(i)); rows[i].clear(); }
};
template <typename G, typename I> void history(G& g, size_t n, size_t deg) {
    Model<G, I> m(g, n, deg);
    m.check();
    // an arbitrary starting point for the node the operations touch and its neighbor
    size_t a = symx::pick(0, n - 1, "node");
    m.replace(a, m.list(deg));
    m.replace((a + 1) % n, std::vector<I>{I(a)});
    m.check();
    for (size_t i = 0; i < STEPS; ++i) {
        switch (symx::pick(0, 2, "op")) {
        case 0: m.replace(a, m.list(deg + 1)); break;
        case 1: m.clear(a); break;
        case 2: m.add(a); break;
        }
        m.check();
    }
    symx_reach("end");
}
template <typename I> using G1 = SimpleGraph<I, lib::Allocator<I>>;
ENTRY(graph_u32) { G1<uint32_t> g(NN, DEG); history<G1<uint32_t>, uint32_t>(g, NN, DEG); }
ENTRY(graph_u8) { G1<uint8_t> g(NN, DEG); history<G1<uint8_t>, uint8_t>(g, NN, DEG); }
ENTRY(graph_u64) { G1<uint64_t> g(2, 1); history<G1<uint64_t>, uint64_t>(g, 2, 1); }
ENTRY(graph_huge) { SimpleGraph<uint32_t> g(NN, DEG); history<SimpleGraph<uint32_t>, uint32_t>(g, NN, DEG); }
using B = SimpleBlockedGraph<uint32_t>;
using BD = B::data_type;
// `rows` vectors in each block
static BD blocked(size_t n, size_t deg, size_t bytes) {
    auto d = BD(n, deg + 1, data::Blocked<HugepageAllocator<uint32_t>>(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(bytes)}));
    return d;
}
ENTRY(graph_blocked) {
    B g(blocked(NN, DEG, 5)); // two rows of three in each 32-byte block
    g.reset();
    history<B, uint32_t>(g, NN, DEG);
}
ENTRY(graph_resize) {
    size_t n = symx::pick(1, 4, "n"), k = symx::pick(0, 5, "new size");
    B g(blocked(n, DEG, 5));
    g.reset();
    Model<B, uint32_t> m(g, n, DEG);
    for (size_t i = 0; i < n; ++i) { m.replace(i, i % 2 ? std::vector<uint32_t>{symx::any<uint32_t>("id")} : std::vector<uint32_t>{}); }
    m.check();
    g.unsafe_resize(k);
    m.rows.resize(k);
    for (size_t i = n; i < k; ++i) g.clear_node(uint32_t(i));
    m.check();
    g.add_node(); m.rows.resize(k + 1); g.clear_node(uint32_t(k));
    m.check();
    m.add(k);
    m.check();
    symx_reach("end");
}
ENTRY(graph_compact) {
    // keep any subset of the rows, in order
    size_t n = 4;
    B g(blocked(n, DEG, 5));
    g.reset();
    Model<B, uint32_t> m(g, n, DEG);
    for (size_t i = 0; i < n; ++i) m.replace(i, i == 1 ? std::vector<uint32_t>{} : std::vector<uint32_t>{symx::any<uint32_t>("id")});
    std::vector<uint32_t> keep;
    unsigned mask = symx::pick(0, 15, "keep");
    for (size_t i = 0; i < n; ++i) if (mask >> i & 1) keep.push_back(uint32_t(i));
    size_t batch = symx::pick(1, 4, "batch");
    threads::SequentialThreadPool pool;
    g.get_data().compact(lib::as_const_span(keep), pool, batch);
    g.unsafe_resize(keep.size());
    auto old = m.rows;
    m.rows.clear();
    for (auto k : keep) m.rows.push_back(old[k]);
    m.check();
    symx_reach("end");
}
ENTRY(graph_equal) {
    G1<uint32_t> a(2, 2), b(2, 2);
    Model<G1<uint32_t>, uint32_t> ma(a, 2, 2), mb(b, 2, 2);
    for (size_t i = 0; i < 2; ++i) { ma.replace(i, ma.list(2)); mb.replace(i, mb.list(2)); }
    bool eq = true;
    for (size_t i = 0; i < 2; ++i) {
        eq &= ma.rows[i].size() == mb.rows[i].size();
        if (eq) for (size_t j = 0; j < ma.rows[i].size(); ++j) eq &= (ma.rows[i][j] == mb.rows[i][j]);
    }
    CHECK_((a == b) == eq, "graph equality disagrees with the adjacency lists");
    G1<uint32_t> c(1, 2);
    CHECK_(!(a == c), "graphs of different size compare equal");
    symx_reach("end");
}
ENTRY(graph_limits) {
    // a degree the index type cannot express is refused, not truncated
    bool threw = false;
    size_t d = symx::pick(254, 257, "degree");
    try { SimpleGraph<uint8_t, lib::Allocator<uint8_t>> g(1, d); CHECK_(g.max_degree() == d, "degree truncated"); } catch (const std::exception&) { threw = true; }
    CHECK_(threw == (d > 255), "degree limit not enforced");
    symx_reach("end");
}
