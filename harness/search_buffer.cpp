// Static search buffer: histories of insert / next / push_back+sort / resize.
#include "symx.h"
#include "svs/index/vamana/search_buffer.h"
#include <functional>
#ifndef STEPS
#define STEPS 5
#endif
#ifndef MAXCAP
#define MAXCAP 3
#endif
#ifndef PREFILL
#define PREFILL 5
#endif
#ifdef RAWD
#define DIST() symx::notnan("dist")
#else
#define DIST() symx_range_float(-7, 8, "dist")
#endif
using Nbr = svs::SearchNeighbor<uint32_t>;

template <typename Cmp> struct Model {
    using Buf = svs::index::vamana::SearchBuffer<uint32_t, Cmp>;
    size_t window, cap;
    Buf buf;
    Cmp cmp{};
    uint32_t ids[STEPS + PREFILL + 1];
    float ds[STEPS + PREFILL + 1];
    bool popped[STEPS + PREFILL + 1];
    size_t n = 0;
    Model(size_t w, size_t c) : window(w), cap(c), buf(svs::index::vamana::SearchBufferConfig(w, c)) {}

    // Two offers of one id always carry the same distance (one query, one vector).
    Nbr fresh() {
        uint32_t id = symx::any<uint32_t>("id");
        float d = DIST();
        for (size_t i = 0; i < n; ++i) { symx_assume(ids[i] != id || ds[i] == d); }
        ids[n] = id; ds[n] = d; popped[n] = false; ++n;
        return Nbr{id, d};
    }
    void check() {
        const auto& b = buf;
        CHECK_(b.size() <= cap, "size exceeds capacity");
        size_t s = b.size();
        if (s > cap) return;
        bool sorted = true, unique = true, known = true, complete = true, flags = true;
        for (size_t i = 0; i + 1 < s; ++i) { sorted &= !cmp(b[i + 1].distance(), b[i].distance()); }
        for (size_t i = 0; i < s; ++i) {
            for (size_t j = 0; j < i; ++j) { unique &= (b[i].id() != b[j].id()); }
            bool k = false, vis = false;
            for (size_t j = 0; j < n; ++j) {
                bool m = (ids[j] == b[i].id());
                k |= m & (ds[j] == b[i].distance());
                vis |= m & popped[j];
            }
            known &= k;
            flags &= (vis == b[i].visited());
        }
        for (size_t j = 0; j < n; ++j) {
            bool in = false;
            for (size_t i = 0; i < s; ++i) { in |= (b[i].id() == ids[j]); }
            // dropped only because a full buffer holds nothing worse than it
            bool ok = in;
            if (s == cap) { ok |= !cmp(ds[j], b[s - 1].distance()); }
            complete &= ok;
        }
        CHECK_(sorted, "entries are not ordered by distance");
        CHECK_(unique, "an id is present twice");
        CHECK_(known, "an entry was never offered with that id and distance");
        CHECK_(complete, "a candidate better than the retained ones was lost");
        CHECK_(flags, "expanded flags differ from the expansions performed");
        // termination condition
        bool pending = false;
        for (size_t i = 0; i < s && i < window; ++i) { pending |= !b[i].visited(); }
        CHECK_(b.done() == !pending, "done() disagrees with the unexpanded candidates in the window");
    }
    void insert() { buf.insert(fresh()); }
    void expand() {
        size_t s = buf.size();
        size_t best = s;
        for (size_t i = s; i-- > 0;) { if (!buf[i].visited()) best = i; }
        uint32_t want = buf[symx_concretize(best)].id();
        auto got = buf.next();
        CHECK_(got.id() == want, "expansion is not the best unexpanded candidate");
        bool again = false;
        for (size_t j = 0; j < n; ++j) { if (ids[j] == got.id()) { again |= popped[j]; popped[j] = true; } }
        CHECK_(!again, "a candidate was expanded twice");
    }
};

template <typename Cmp> void history() {
    size_t cap = symx::pick(1, MAXCAP, "cap");
    size_t win = symx::pick(1, cap, "window");
    Model<Cmp> m(win, cap);
    m.buf.clear();
    for (int t = 0; t < STEPS; ++t) {
        bool can = !m.buf.done();
        if (can && symx_choose(2, "op")) { m.expand(); symx_reach("expand"); }
        else { m.insert(); }
        m.check();
    }
    if (m.buf.full()) symx_reach("full");
    symx_observe("size", m.buf.size());
    for (size_t i = 0; i < m.buf.size(); ++i) { symx_observe("id", m.buf[i].id()); symx_observe("v", m.buf[i].visited()); }
    symx_reach("end");
}
ENTRY(static_less) { history<std::less<>>(); }
ENTRY(static_greater) { history<std::greater<>>(); }

// Seeding with push_back followed by sort, as done with the search entry points.
ENTRY(static_seed) {
    size_t cap = symx::pick(1, 3, "cap");
    Model<std::less<>> m(cap, cap);
    m.buf.clear();
    size_t k = symx::pick(1, cap, "seeds");
    for (size_t i = 0; i < k; ++i) {
        auto n = m.fresh();
        for (size_t j = 0; j + 1 < m.n; ++j) symx_assume(m.ids[j] != n.id());
        m.buf.push_back(n);
    }
    m.buf.sort();
    m.check();
    m.insert();
    m.check();
    if (!m.buf.done()) { m.expand(); m.check(); }
    symx_observe("size", m.buf.size());
    symx_reach("end");
}
// Resizing and clearing between searches keeps the buffer usable and bounded.
ENTRY(static_resize) {
    size_t c1 = symx::pick(1, 3, "cap1"), c2 = symx::pick(1, 3, "cap2");
    bool cfg = symx_choose(2, "how");
    Model<std::less<>> m(c1, c1);
    m.buf.clear();
    size_t k = symx::pick(0, 3, "k");
    for (size_t i = 0; i < k; ++i) { m.insert(); }
    if (cfg) m.buf.change_maxsize(svs::index::vamana::SearchBufferConfig(c2, c2));
    else m.buf.change_maxsize(c2);
    CHECK_(m.buf.capacity() == c2, "capacity not changed");
    CHECK_(m.buf.size() <= c2, "size exceeds the new capacity");
    m.buf.clear();
    CHECK_(m.buf.size() == 0 && m.buf.done(), "cleared buffer is not empty");
    m.n = 0; m.cap = c2; m.window = c2;
    m.insert(); m.check(); m.insert(); m.check();
    auto c = m.buf.shallow_copy();
    CHECK_(c.capacity() == c2 && c.size() == 0 && c.config() == m.buf.config(), "copied scratch differs in configuration");
    symx_reach("end");
}
// A longer buffer: any ordered contents (ties included), a few expansions, then one more offer of anything.
template <typename Cmp> static void prefilled() {
    size_t k = PREFILL, cap = k + symx::pick(0, 1, "room"), win = symx::pick(0, 1, "wide") ? cap : 2;
    Model<Cmp> m(win, cap);
    m.buf.clear();
    for (size_t i = 0; i < k; ++i) {
        auto n = m.fresh();
        for (size_t j = 0; j < i; ++j) symx_assume(m.ids[j] != n.id());
        if (i) symx_assume(!m.cmp(n.distance(), m.ds[i - 1]));
        m.buf.insert(n);
    }
    size_t e = symx::pick(0, 2, "expansions");
    for (size_t i = 0; i < e; ++i) m.expand();
    m.insert();
    m.check();
    if (!m.buf.done()) m.expand();
    symx_observe("size", m.buf.size());
    symx_reach("end");
}
ENTRY(static_long) { prefilled<std::less<>>(); }
ENTRY(static_long_greater) { prefilled<std::greater<>>(); }
