// Search buffer of the mutable index: valid and skipped (deleted) candidates mixed.
#include "symx.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
#include <functional>
#ifndef STEPS
#define STEPS 4
#endif
#ifndef MAXCAP
#define MAXCAP 2
#endif
#ifndef PREFILL
#define PREFILL 4
#endif
#ifdef RAWD
#define DIST() symx::notnan("dist")
#else
#define DIST() symx_range_float(-7, 8, "dist")
#endif
using Nbr = svs::PredicatedSearchNeighbor<uint32_t>;

template <typename Cmp> struct Model {
    using Buf = svs::index::vamana::MutableBuffer<uint32_t, Cmp>;
    size_t window, cap;
    Buf buf;
    Cmp cmp{};
    uint32_t ids[STEPS + PREFILL + 4];
    float ds[STEPS + PREFILL + 4];
    bool ok[STEPS + PREFILL + 4];
    bool popped[STEPS + PREFILL + 4];
    size_t n = 0;
    Model(size_t w, size_t c) : window(w), cap(c), buf(svs::index::vamana::SearchBufferConfig(w, c)) {}

    Nbr fresh(bool distinct = false, bool named = false) {
        uint32_t id = named ? uint32_t(n) : symx::any<uint32_t>("id");
        float d = DIST();
        bool v = symx_choose(2, "valid");
        for (size_t i = 0; i < n; ++i) {
            if (distinct) symx_assume(ids[i] != id);
            else symx_assume(ids[i] != id || (ds[i] == d && ok[i] == v));
        }
        ids[n] = id; ds[n] = d; ok[n] = v; popped[n] = false; ++n;
        return Nbr{id, d, v};
    }
    // End of the region the search still has to expand.
    size_t roi() {
        size_t c = 0;
        for (size_t i = 0; i < buf.size(); ++i) {
            if (buf[i].valid()) { if (++c == window) return i + 1; }
        }
        return buf.size();
    }
    void check() {
        const auto& b = buf;
        size_t s = b.size();
        bool sorted = true, unique = true, known = true, complete = true, flags = true;
        size_t nv = 0;
        for (size_t i = 0; i + 1 < s; ++i) { sorted &= !cmp(b[i + 1].distance(), b[i].distance()); }
        for (size_t i = 0; i < s; ++i) {
            nv += b[i].valid();
            for (size_t j = 0; j < i; ++j) { unique &= (b[i].id() != b[j].id()); }
            bool k = false, vis = false;
            for (size_t j = 0; j < n; ++j) {
                bool m = (ids[j] == b[i].id());
                k |= m & (ds[j] == b[i].distance()) & (ok[j] == b[i].valid());
                vis |= m & popped[j];
            }
            known &= k;
            flags &= (vis == b[i].visited());
        }
        for (size_t j = 0; j < n; ++j) {
            bool in = false;
            for (size_t i = 0; i < s; ++i) { in |= (b[i].id() == ids[j]); }
            bool o = in;
            if (nv == cap && s > 0) { o |= !cmp(ds[j], b[s - 1].distance()); }
            complete &= o;
        }
        CHECK_(nv <= cap, "more valid candidates than the capacity");
        CHECK_(b.valid() == nv, "valid() disagrees with the contents");
        CHECK_(b.full() == (nv == cap), "full() disagrees with the contents");
        CHECK_(nv < cap || b[s - 1].valid(), "a full buffer keeps useless skipped candidates at its end");
        CHECK_(sorted, "entries are not ordered by distance");
        CHECK_(unique, "an id is present twice");
        CHECK_(known, "an entry was never offered with that id, distance and validity");
        CHECK_(complete, "a candidate better than the retained ones was lost");
        CHECK_(flags, "expanded flags differ from the expansions performed");
        bool pending = false;
        size_t r = roi();
        for (size_t i = 0; i < r; ++i) { pending |= !b[i].visited(); }
        CHECK_(b.done() == !pending, "done() disagrees with the unexpanded candidates in the window");
    }
    void insert() { buf.insert(fresh()); }
    void expand() {
        size_t r = roi(), best = r;
        for (size_t i = r; i-- > 0;) { if (!buf[i].visited()) best = i; }
        CHECK_(best < r, "search continues without an unexpanded candidate");
        uint32_t want = buf[symx_concretize(best)].id();
        uint32_t got = buf.next().id();
        CHECK_(got == want, "expansion is not the best unexpanded candidate");
        bool again = false;
        for (size_t j = 0; j < n; ++j) { if (ids[j] == got) { again |= popped[j]; popped[j] = true; } }
        CHECK_(!again, "a candidate was expanded twice");
    }
    void finish() {
        // Expected final contents: the valid ones, in order.
        size_t before = 0;
        uint32_t want[STEPS + PREFILL + 4];
        for (size_t i = 0; i < buf.size(); ++i) { if (buf[i].valid()) want[before++] = buf[i].id(); }
        buf.cleanup();
        CHECK_(buf.size() == before, "cleanup kept or dropped a wrong number of candidates");
        bool same = true;
        for (size_t i = 0; i < before; ++i) { same &= buf[i].valid() & (buf[i].id() == want[i]); }
        CHECK_(same, "cleanup changed the valid candidates or their order");
        symx_observe("size", buf.size());
        for (size_t i = 0; i < buf.size(); ++i) symx_observe("id", buf[i].id());
    }
};

template <typename Cmp> void history(size_t cap, size_t win) {
    Model<Cmp> m(win, cap);
    m.buf.clear();
    for (int t = 0; t < STEPS; ++t) {
        bool can = !m.buf.done();
        if (can && symx_choose(2, "op")) { m.expand(); symx_reach("expand"); }
        else { m.insert(); }
        m.check();
    }
    if (m.buf.full()) symx_reach("full");
    m.finish();
    symx_reach("end");
}
ENTRY(mutable_less_1) { history<std::less<>>(1, 1); }
ENTRY(mutable_less_21) { history<std::less<>>(2, 1); }
ENTRY(mutable_less_22) { history<std::less<>>(2, 2); }
ENTRY(mutable_greater) { history<std::greater<>>(2, symx::pick(1, 2, "w")); }
// Inserts only, one more of them.
ENTRY(mutable_inserts) {
    size_t cap = symx::pick(1, 3, "cap"), w = symx::pick(1, cap, "window");
    Model<std::less<>> m(w, cap);
    m.buf.clear();
    for (int t = 0; t < STEPS; ++t) { m.insert(); }
    m.check();
    m.finish();
    symx_reach("end");
}
ENTRY(mutable_seed) {
    size_t cap = symx::pick(1, MAXCAP, "cap"), w = symx::pick(1, cap, "window");
    Model<std::less<>> m(w, cap);
    m.buf.clear();
    size_t k = symx::pick(1, 3, "seeds");
    size_t nv = 0;
    for (size_t i = 0; i < k; ++i) {
        auto n = m.fresh(true);
        if (n.valid() && nv == cap) { m.buf.push_back(n); --m.n; continue; }
        nv += n.valid();
        m.buf.push_back(n);
    }
    m.buf.sort();
    m.check();
    m.insert();
    m.check();
    if (!m.buf.done()) { m.expand(); m.check(); }
    m.finish();
    symx_reach("end");
}
ENTRY(mutable_resize) {
    size_t c1 = symx::pick(1, 3, "cap1"), c2 = symx::pick(1, 3, "cap2");
    size_t w2 = symx::pick(1, c2, "w2");
    Model<std::less<>> m(c1, c1);
    m.buf.clear();
    size_t k = symx::pick(0, 2, "k");
    for (size_t i = 0; i < k; ++i) { m.insert(); }
    m.buf.change_maxsize(svs::index::vamana::SearchBufferConfig(w2, c2));
    m.buf.clear();
    CHECK_(m.buf.size() == 0 && m.buf.done() && m.buf.valid() == 0, "cleared buffer is not empty");
    CHECK_(m.buf.target() == c2, "capacity not changed");
    m.n = 0; m.cap = c2; m.window = w2;
    m.insert(); m.check(); m.insert(); m.check();
    auto c = m.buf.shallow_copy();
    CHECK_(c.target() == c2 && c.size() == 0 && c.config() == m.buf.config(), "copied scratch differs in configuration");
    CHECK_(c.done(), "copied scratch is not empty");
    symx_reach("end");
}
// A longer buffer: any ordered contents (ties included), a few expansions, then one more offer of anything.
template <typename Cmp> static void prefilled() {
    size_t k = PREFILL, cap = symx::pick(0, 1, "room") ? k : 2, win = symx::pick(0, 1, "wide") ? cap : 2;
    Model<Cmp> m(win, cap);
    m.buf.clear();
    for (size_t i = 0; i < k; ++i) {
        auto n = m.fresh(true, true);    // only equality of ids matters
        if (i) symx_assume(!m.cmp(n.distance(), m.ds[i - 1]));
        m.buf.insert(n);
    }
    size_t e = symx::pick(0, 1, "expansions");
    for (size_t i = 0; i < e && !m.buf.done(); ++i) m.expand();
    m.insert();
    m.check();
    if (!m.buf.done()) { m.expand(); symx_reach("expand"); }
    m.finish();
    symx_reach("end");
}
ENTRY(mutable_long) { prefilled<std::less<>>(); }
ENTRY(mutable_long_greater) { prefilled<std::greater<>>(); }
// Sizes that the buffer's 16-bit fields cannot hold are refused (and change nothing), others are kept.
ENTRY(sizes_m) {
    using Buf = svs::index::vamana::MutableBuffer<uint32_t>;
    using svs::index::vamana::SearchBufferConfig;
    uint64_t high = symx::any<uint64_t>("high"), whigh = symx::any<uint64_t>("window_high");
    symx_assume(high < (uint64_t(1) << 48) && whigh <= high);
    uint64_t cap = (high << 16) | symx::pick(1, 3, "low"), window = (whigh << 16) | 1;
    bool resize = symx_choose(2, "resize");
    Buf b(SearchBufferConfig(2, 4));
    bool refused = false;
    try {
        if (resize) b.change_maxsize(SearchBufferConfig(window, cap));
        else b = Buf(SearchBufferConfig(window, cap));
    } catch (const std::exception&) { refused = true; }
    CHECK_(!refused || high != 0, "a capacity that fits was refused");
    auto c = b.config();
    if (refused) CHECK_(c.get_search_window_size() == 2 && c.get_total_capacity() == 4, "a refused size changed the buffer");
    else CHECK_(c.get_search_window_size() == window && c.get_total_capacity() == cap, "the buffer has another size than asked for");
    symx_reach(refused ? "refused" : "accepted");
}
