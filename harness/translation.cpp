// Id translation: every short history of insertions, deletions and remappings, accepted or refused.
#include "symx.h"
#include "svs/core/translation.h"
#include <vector>
#ifndef STEPS
#define STEPS 3
#endif
using namespace svs;

struct Model {
    std::vector<uint64_t> ext; std::vector<uint64_t> in;
    int fe(uint64_t e) const { for (size_t i = 0; i < ext.size(); ++i) if (ext[i] == e) return int(i); return -1; }
    int fi(uint64_t x) const { for (size_t i = 0; i < in.size(); ++i) if (in[i] == x) return int(i); return -1; }
    void del(int i) { ext.erase(ext.begin() + i); in.erase(in.begin() + i); }
};
static void check(const IDTranslator& t, const Model& m, const std::vector<uint64_t>& es, const std::vector<uint64_t>& is) {
    CHECK_(t.size() == m.ext.size(), "the table has the wrong number of ids");
    bool e_known = true, i_known = true, fwd = true, back = true;
    for (auto e : es) {
        int k = m.fe(e);
        e_known &= t.has_external(e) == (k >= 0);
        if (k >= 0 && t.has_external(e)) fwd &= t.get_internal(e) == m.in[k];
    }
    for (auto i : is) {
        if (i > 0xffffffffull) continue;
        int k = m.fi(i);
        i_known &= t.has_internal(uint32_t(i)) == (k >= 0);
        if (k >= 0 && t.has_internal(uint32_t(i))) back &= t.get_external(uint32_t(i)) == m.ext[k];
    }
    CHECK_(e_known, "an external id is known although it should not be, or lost");
    CHECK_(i_known, "an internal id is known although it should not be, or lost");
    CHECK_(fwd, "an external id translates to the wrong internal id");
    CHECK_(back, "an internal id translates to the wrong external id");
    size_t n = 0;
    bool iter = true;
    for (auto p : t) { ++n; int k = m.fe(p.first); iter &= k >= 0 && m.in[k] == p.second; }
    CHECK_(iter && n == m.ext.size(), "iterating over the table yields other pairs than those inserted");
}
template <typename F> static bool refused(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }

// one operation with ids drawn by e() and i()
template <typename E, typename I> void op(IDTranslator& t, Model& m, E&& e, I&& i, unsigned first, unsigned last, unsigned maxn = 2) {
    unsigned o = symx::pick(first, last, "op");
    if (o == 0) {
        size_t n = symx::pick(0, maxn, "count"), n2 = n;
        if (n == 2 && symx::pick(0, 1, "short")) n2 = 1;
        std::vector<uint64_t> ev, iv;
        for (size_t k = 0; k < n; ++k) ev.push_back(e());
        for (size_t k = 0; k < n2; ++k) iv.push_back(i());
        bool ok = n == n2;
        for (size_t k = 0; k < n; ++k) { ok = ok && m.fe(ev[k]) < 0; for (size_t l = 0; l < k; ++l) ok = ok && ev[k] != ev[l]; }
        for (size_t k = 0; k < n2; ++k) { ok = ok && m.fi(iv[k]) < 0 && iv[k] <= 0xffffffffull; for (size_t l = 0; l < k; ++l) ok = ok && iv[k] != iv[l]; }
        bool r = refused([&] { t.insert(ev, iv); });
        CHECK_(r == !ok, ok ? "a valid insertion was refused" : "an invalid insertion was accepted");
        if (ok) for (size_t k = 0; k < n; ++k) { m.ext.push_back(ev[k]); m.in.push_back(iv[k]); }
        if (!ok) symx_reach("refused"); else symx_reach("inserted");
    } else if (o == 1) {
        size_t n = symx::pick(1, maxn, "count");
        std::vector<uint64_t> ev;
        for (size_t k = 0; k < n; ++k) ev.push_back(e());
        if (n == 2) symx_assume(ev[0] != ev[1]); // documented precondition
        bool ok = true;
        for (auto x : ev) ok = ok && m.fe(x) >= 0;
        bool r = refused([&] { t.delete_external(ev); });
        CHECK_(r == !ok, "deletion of external ids was refused or accepted wrongly");
        if (ok) for (auto x : ev) m.del(m.fe(x));
        if (ok) symx_reach("deleted");
    } else if (o == 2) {
        size_t n = symx::pick(1, maxn, "count");
        std::vector<uint64_t> iv;
        for (size_t k = 0; k < n; ++k) { iv.push_back(i()); symx_assume(iv.back() <= 0xffffffffull); }
        if (n == 2) symx_assume(iv[0] != iv[1]);
        bool ok = true;
        for (auto x : iv) ok = ok && m.fi(x) >= 0;
        bool r = refused([&] { t.delete_internal(iv); });
        CHECK_(r == !ok, "deletion of internal ids was refused or accepted wrongly");
        if (ok) for (auto x : iv) m.del(m.fi(x));
    } else if (o == 3) {
        uint64_t from = i(), to = i();
        symx_assume(from <= 0xffffffffull && to <= 0xffffffffull);
        int k = m.fi(from);
        if (k < 0 || m.fi(to) >= 0) return; // documented precondition
        t.remap_internal_id(uint32_t(from), uint32_t(to));
        m.in[k] = to;
        symx_reach("remapped");
    }
}
// ids from a few values, among them ones that collide in the hash tables and ones that do not fit
template <int VARIANT> void history() {
    static const std::vector<uint64_t> E = {0, 16, 0x1000000000ull};
    static const std::vector<uint64_t> I = VARIANT != 1 ? std::vector<uint64_t>{0, 16, 0xffffffffull} : std::vector<uint64_t>{3, 0x100000003ull};
    IDTranslator t;
    Model m;
    if (VARIANT == 2) { m.ext = {E[0], E[2]}; m.in = {I[1], I[0]}; t.insert(m.ext, m.in); }
    auto e = [&] { return E[symx::pick(0, E.size() - 1, "ext")]; };
    auto i = [&] { return I[symx::pick(0, I.size() - 1, "int")]; };
    for (int s = 0; s < STEPS; ++s) { op(t, m, e, i, 0, 3); check(t, m, E, I); }
    symx_reach("end");
}
ENTRY(history_ids) { history<0>(); }
ENTRY(history_narrow) { history<1>(); }

ENTRY(history_from_two) { history<2>(); }

// arbitrary ids
template <unsigned OP> void any() {
    IDTranslator t;
    Model m;
    std::vector<uint64_t> es{5}, is{7};
    t.insert(es, is);
    m.ext = es; m.in = is;
    auto e = [&] { uint64_t x = symx::any<uint64_t>("ext"); es.push_back(x); return x; };
    auto i = [&] { uint64_t x = symx::any<uint64_t>("int"); is.push_back(x); return x; };
    op(t, m, e, i, OP, OP, 1);
    check(t, m, es, is);
    symx_reach("end");
}
ENTRY(any_insert) { any<0>(); }
ENTRY(any_delete_external) { any<1>(); }
ENTRY(any_delete_internal) { any<2>(); }
ENTRY(any_remap) { any<3>(); }
ENTRY(identity) {
    size_t n = symx::pick(0, 4, "n");
    IDTranslator t{IDTranslator::Identity(n)};
    CHECK_(t.size() == n, "the identity translation has the wrong size");
    bool ok = true;
    for (size_t i = 0; i < n; ++i) ok &= t.has_external(i) && t.get_internal(i) == i && t.get_external(uint32_t(i)) == i;
    CHECK_(ok && !t.has_external(n) && !t.has_internal(uint32_t(n)), "the identity translation is not the identity");
    symx_reach("end");
}
