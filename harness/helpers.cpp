// Neighbor ordering, bounded merge, checked narrowing and integer helpers.
#include "symx.h"
#include "svs/lib/neighbor.h"
#include "svs/lib/algorithms.h"
#include "svs/lib/misc.h"
#include "svs/lib/narrow.h"
#include "svs/lib/threads/types.h"
#include <vector>
#include <array>
#ifndef MERGE
#define MERGE 2
#endif
using N = svs::Neighbor<uint32_t>;
static N nbr() { uint32_t i = symx::any<uint32_t>("id"); float d = symx::notnan("d"); return N{i, d}; }
template <typename Cmp> void order() {
    svs::TotalOrder<Cmp> o{Cmp{}};
    N a = nbr(), b = nbr(), c = nbr();
    bool ab = o(a, b), ba = o(b, a), bc = o(b, c), ac = o(a, c), aa = o(a, a);
    CHECK_(!aa, "ordering is not irreflexive");
    CHECK_(!(ab && ba), "ordering is not antisymmetric");
    CHECK_(!(ab && bc) || ac, "ordering is not transitive");
    bool same = (a.id() == b.id()) && (a.distance() == b.distance());
    CHECK_(same == (!ab && !ba), "two different neighbors compare equal");
    CHECK_(!Cmp{}(a.distance(), b.distance()) || ab, "ordering contradicts the distances");
    CHECK_(svs::equal(a, b) == same, "equality is wrong");
    CHECK_(svs::equal_id(a, b) == (a.id() == b.id()), "id equality is wrong");
    symx_observe("ab", ab);
    symx_reach("end");
}
ENTRY(order_less) { order<std::less<>>(); }
ENTRY(order_greater) { order<std::greater<>>(); }
ENTRY(meta) {
    uint32_t id = symx::any<uint32_t>("id"); float d = symx::notnan("d"); bool v = symx::flag("valid");
    svs::PredicatedSearchNeighbor<uint32_t> p{id, d, v};
    CHECK_(p.id() == id && p.distance() == d && p.valid() == v && !p.visited(), "fresh predicated neighbor is wrong");
    p.set_visited();
    CHECK_(p.valid() == v && p.visited(), "marking as visited changed validity");
    N q = p;
    CHECK_(q.id() == id && q.distance() == d, "conversion changed the neighbor");
    svs::SearchNeighbor<uint32_t> s{q};
    CHECK_(s.id() == id && s.distance() == d && !s.visited(), "conversion changed the neighbor");
    s.set_visited();
    CHECK_(s.visited() && s.id() == id, "marking as visited is lost");
    svs::PredicatedSearchNeighbor<uint32_t> r{id, d, v};
    CHECK_(!svs::equal(p, r), "equality ignores the visited state");
    // narrowing of ids is checked
    uint64_t big = symx::any<uint64_t>("big");
    bool thrown = false;
    try { N n = svs::Neighbor<uint64_t>{big, d}; CHECK_(n.id() == big, "id was truncated"); } catch (...) { thrown = true; }
    CHECK_(thrown == (big > 0xffffffffull), "narrowing of an id refused or accepted wrongly");
    float f = symx::finite("f");
    N sl = svs::type_traits::sentinel_v<N, std::less<>>, sg = svs::type_traits::sentinel_v<N, std::greater<>>;
    CHECK_(!(sl.distance() < f) && !(sg.distance() > f), "a sentinel is better than a real candidate");
    CHECK_(!(f < svs::type_traits::tombstone_v<float, std::less<>>) && !(f > svs::type_traits::tombstone_v<float, std::greater<>>), "a tombstone is worse than a real candidate");
    symx_reach("end");
}
ENTRY(merge) {
    size_t na = symx::pick(0, MERGE, "na"), nb = symx::pick(0, MERGE, "nb"), k = symx::pick(0, na + nb, "k");
    std::vector<int> a(na), b(nb), out(k);
    for (size_t i = 0; i < na; ++i) { a[i] = symx::in<int>(-8, 7, "a"); if (i) symx_assume(a[i - 1] <= a[i]); }
    for (size_t i = 0; i < nb; ++i) { b[i] = symx::in<int>(-8, 7, "b"); if (i) symx_assume(b[i - 1] <= b[i]); }
    svs::lib::ranges::bounded_merge(a, b, out, std::less<>());
    bool sorted = true;
    for (size_t i = 1; i < k; ++i) sorted &= out[i - 1] <= out[i];
    CHECK_(sorted, "merged list is not sorted");
    // multiset: for every value v among inputs, number of inputs < v bounds the outputs
    for (size_t i = 0; i < na + nb; ++i) {
        int v = i < na ? a[i] : b[i - na];
        size_t in_lt = 0, in_le = 0, out_lt = 0, out_le = 0;
        for (int x : a) { in_lt += x < v; in_le += x <= v; }
        for (int x : b) { in_lt += x < v; in_le += x <= v; }
        for (int x : out) { out_lt += x < v; out_le += x <= v; }
        CHECK_(out_lt == std::min(in_lt, k) && out_le == std::min(in_le, k), "merged list is not the best of both");
    }
    symx_reach("end");
}
template <typename To, typename From> void narrow1(const char* n) {
    From x = symx::any<From>(n);
    bool fits = (std::is_signed_v<From> && x < 0) ? (std::is_signed_v<To> && (int64_t)x >= (int64_t)std::numeric_limits<To>::min()) : (uint64_t)x <= (uint64_t)std::numeric_limits<To>::max();
    bool thrown = false;
    try { To t = svs::lib::narrow<To>(x); CHECK_((__int128)t == (__int128)x, "narrowing changed the value"); } catch (...) { thrown = true; }
    CHECK_(thrown == !fits, "narrowing refused or accepted wrongly");
}
ENTRY(narrow) {
    switch (symx::pick(0, 10, "which")) {
        case 0: narrow1<uint16_t, size_t>("a"); return;
        case 1: narrow1<uint32_t, size_t>("b"); return;
        case 2: narrow1<int32_t, size_t>("c"); return;
        case 3: narrow1<size_t, int64_t>("d"); return;
        case 4: narrow1<uint32_t, int32_t>("e"); return;
        case 5: narrow1<int8_t, uint8_t>("f"); return;
        case 6: narrow1<int16_t, int64_t>("g"); return;
        case 7: narrow1<uint8_t, int32_t>("h"); return;
        case 8: narrow1<int64_t, uint64_t>("i"); return;
        case 9: narrow1<uint64_t, int16_t>("j"); return;
        default: break;
    }
    int x = symx::any<int>("x");
    bool thrown = false;
    try { float f = svs::lib::narrow<float>(x); CHECK_((double)f == (double)x, "narrowing to float lost digits"); } catch (...) { thrown = true; }
    CHECK_(!thrown || x != 5, "narrowing of a small integer to float refused");
    CHECK_(!thrown || x > (1 << 24) || x < -(1 << 24), "narrowing of an exactly representable integer refused");
    symx_reach("end");
}
ENTRY(integers) {
    size_t x = symx::any<size_t>("x"), y = symx::in<size_t>(1, 64, "y");
    size_t xs = symx::in<size_t>(0, 4095, "xs");
    size_t q = svs::lib::div_round_up(xs, y);
    CHECK_(q * y >= xs && q * y < xs + y, "rounding division is not exact");
    size_t r = svs::lib::round_up_to_multiple_of(xs, y);
    CHECK_(r >= xs && r - xs < y && r % y == 0, "rounding up is not exact");
    unsigned e = 9 * symx::pick(0, 7, "e");
    svs::lib::PowerOfTwo p{e};
    CHECK_(p.value() == (size_t(1) << e), "power of two value is wrong");
    CHECK_(x / p == x >> e, "power of two division is wrong");
    CHECK_((x / p) * p + x % p == x && x % p < p.value(), "power of two remainder is wrong");
    CHECK_(x * p == x << e && p * x == x << e, "power of two product is wrong");
    CHECK_(svs::lib::prevpow2(p.value()) == p, "previous power of two is wrong");
    bool thrown = false;
    try { auto pp = svs::lib::prevpow2(x); CHECK_(pp.raw() < 64 && pp.value() <= x && x - pp.value() < pp.value(), "previous power of two is wrong"); } catch (...) { thrown = true; }
    CHECK_(thrown == (x == 0), "previous power of two refused or accepted wrongly");
    symx_reach("end");
}
ENTRY(mask) {
    unsigned hi = symx::pick(0, 31, "hi"), lo = symx::pick(0, hi, "lo");
    uint32_t m = svs::lib::bitmask<uint32_t>(lo, hi);
    uint32_t want = 0;
    for (unsigned i = lo; i <= hi; ++i) want |= 1u << i;
    CHECK_(m == want, "bit mask is wrong");
    uint64_t m64 = svs::lib::bitmask<uint64_t>(lo + 32, hi + 32);
    CHECK_(m64 == (uint64_t)want << 32, "bit mask is wrong");
    if (hi < 8) { uint8_t m8 = svs::lib::bitmask<uint8_t>(lo, hi); CHECK_(m8 == (uint8_t)want, "bit mask is wrong"); }
    symx_reach("end");
}
ENTRY(percent) {
    double d = symx::any<double>("d");
    bool thrown = false;
    try { svs::lib::Percent p(d); CHECK_(p.value() == d, "percentage changed"); } catch (...) { thrown = true; }
    CHECK_(thrown == !(d >= 0 && d <= 1), "percentage refused or accepted wrongly");
    symx_reach("end");
}
ENTRY(intersect) {
    size_t na = symx::pick(0, 2, "na"), nb = symx::pick(0, MERGE - 1, "nb");
    std::vector<uint32_t> a(na), b(nb);
    for (auto& v : a) v = symx::in<uint32_t>(0, 2, "a");
    for (auto& v : b) v = symx::in<uint32_t>(0, 2, "b");
    size_t want = 0;
    for (uint32_t v = 0; v < 3; ++v) { bool x = false, y = false; for (auto u : a) x |= u == v; for (auto u : b) y |= u == v; want += x & y; }
    CHECK_(svs::lib::count_intersect(a, b) == want, "intersection size is wrong");
    bool uniq = true; for (size_t i = 0; i < na; ++i) for (size_t j = 0; j < i; ++j) uniq &= a[i] != a[j];
    CHECK_(svs::lib::ranges::all_unique(a) == uniq, "uniqueness test is wrong");
    auto mm = svs::lib::extrema(b.begin(), b.end());
    for (auto u : b) CHECK_(mm.min <= u && u <= mm.max, "extrema are wrong");
    if (nb) { bool l = false, h = false; for (auto u : b) { l |= u == mm.min; h |= u == mm.max; } CHECK_(l && h, "extrema are not attained"); }
    symx_reach("end");
}
ENTRY(ranges) {
    uint32_t a = symx::any<uint32_t>("a"), b = symx::any<uint32_t>("b"), x = symx::any<uint32_t>("x");
    svs::threads::UnitRange<uint32_t> r(a, b);
    size_t want = b > a ? b - a : 0;
    CHECK_(r.size() == want && r.empty() == (want == 0), "range size is wrong");
    CHECK_(r.contains(x) == (a <= x && x < b), "range membership is wrong");
    CHECK_((size_t)(r.end() - r.begin()) == want || want > 0x7fffffff, "range iterators disagree with its size");
    svs::threads::UnitRange<uint32_t> s(svs::threads::IteratorPair(r.begin(), r.end()));
    CHECK_(s == r, "range rebuilt from its iterators differs");
    CHECK_(r.eachindex() == (svs::threads::UnitRange<size_t>(0, want)), "index range is wrong");
    symx_reach("end");
}
ENTRY(range_at) {
    size_t n = symx::in<size_t>(0, 9, "n"), i = symx::in<size_t>(0, 15, "i"), a = symx::in<size_t>(0, 100, "a");
    svs::threads::UnitRange<size_t> r(a, a + n);
    bool thrown = false;
    try { size_t v = r.at(i); CHECK_(v == a + i && a <= v && v < a + n, "range element is wrong"); } catch (const std::out_of_range&) { thrown = true; }
    CHECK_(thrown == (i >= n), "range element refused or accepted wrongly");
    symx_reach("end");
}
