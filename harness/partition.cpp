// Static partitioning of iteration spaces.
#include "symx.h"
#include "svs/lib/threads/thunks.h"
#include <vector>
#ifndef MAXK
#define MAXK 7
#endif
#ifndef PAIRN
#define PAIRN 40
#define PAIRK 9
#endif
#ifndef MAXN
#define MAXN 40
#endif
using namespace svs::threads;
template <typename T, typename U> void check(T n, U k) {
    T next = 0, lo = std::numeric_limits<T>::max(), hi = 0;
    bool contiguous = true;
    for (U t = 0; t < k; ++t) {
        auto r = balance(n, k, t);
        contiguous &= (r.start() == next) & (r.stop() >= r.start());
        next = r.stop();
        T s = r.size();
        lo = std::min(lo, s); hi = std::max(hi, s);
    }
    CHECK_(contiguous, "parts are not contiguous");
    CHECK_(next == n, "parts do not cover the whole space");
    CHECK_(hi - lo <= 1, "parts are not balanced");
}
// any n, concrete team size
template <typename T> void balanced(T maxn) {
    size_t k = symx::pick(2, MAXK, "threads");
    T n = symx::in<T>(1, maxn, "n");
    check<T, size_t>(n, k);
    symx_reach("end");
}
ENTRY(balance_small) { balanced<size_t>(MAXN); }
ENTRY(balance_u32) { balanced<uint32_t>(MAXN); }
ENTRY(balance_int) { balanced<int>(MAXN); }
// sizes near the limits of the types
template <typename T> void huge(unsigned bits) {
    size_t k = symx::pick(2, MAXK, "threads");
    T top = symx::pick(0, 1, "top") ? T(std::numeric_limits<T>::max() - T(k)) : T(T(1) << bits);
    check<T, size_t>(T(top - symx::in<T>(0, MAXN, "below")), k);
    symx_reach("end");
}
ENTRY(balance_huge) { huge<size_t>(63); }
ENTRY(balance_huge_u32) { huge<uint32_t>(31); }
// any team size and any two neighbouring members
ENTRY(balance_pair) {
    size_t n = symx::in<size_t>(1, PAIRN, "n"), k = symx::in<size_t>(2, PAIRK, "threads");
    size_t t = symx::in<size_t>(0, PAIRK - 1, "tid");
    symx_assume(t + 1 < k);
    auto a = balance(n, k, t), b = balance(n, k, t + 1);
    CHECK_(a.stop() == b.start() && a.stop() <= n && b.stop() <= n, "neighbouring parts do not meet");
    CHECK_(a.size() >= b.size() && a.size() - b.size() <= 1, "neighbouring parts are not balanced");
    if (t == 0) CHECK_(a.start() == 0, "the first part does not start at 0");
    if (t + 2 == k) CHECK_(b.stop() == n, "the last part does not end at n");
    symx_reach("end");
}
ENTRY(balance_edges) {
    size_t n = symx::any<size_t>("n"), t = symx::any<size_t>("t");
    symx_assume(t < 1);
    CHECK_(balance(n, size_t(1), t) == UnitRange<size_t>(0, n), "a team of one does not get everything");
    size_t k = symx::any<size_t>("k");
    auto r = balance(size_t(0), k, t);
    CHECK_(r.empty() && r.start() == 0, "an empty space is not empty");
    // narrow thread id
    auto s = balance(size_t(10), size_t(4), uint64_t(3));
    CHECK_(s == UnitRange<size_t>(8, 10), "part differs");
    symx_reach("end");
}
// The thunk handed to worker threads.
template <typename Space> void thunk(Space space, size_t n, size_t k, size_t base) {
    std::vector<unsigned> seen(n, 0);
    bool bad = false;
    auto f = [&](const auto& is, uint64_t tid) {
        bad |= tid >= k;
        bad |= is.begin() == is.end();
        for (auto i : is) { size_t j = i - base; if (j >= n) { bad = true; continue; } seen[j]++; }
    };
    auto w = thunks::wrap(ThreadCount{k}, f, space);
    for (size_t t = 0; t < k; ++t) w(t);
    CHECK_(!bad, "a part reaches outside the space");
    bool once = true;
    for (auto s : seen) once &= s == 1;
    CHECK_(once, "an item is not processed exactly once");
}
ENTRY(thunk_static) {
    size_t n = symx::pick(0, 12, "n"), k = symx::pick(1, 6, "k");
    thunk(StaticPartition(n), n, k, 0);
    size_t b = symx::pick(0, 1, "b") * 5;
    thunk(StaticPartition(b, b + n), n, k, b);
    std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = i;
    thunk(StaticPartition(v), n, k, 0);
    symx_reach("end");
}
// a loop of very many items, handed out in ranges that are not walked through
ENTRY(thunk_huge) {
    size_t k = symx::pick(1, 3, "k");
    size_t n = (size_t(1) << (symx::pick(0, 1, "bits") ? 32 : 62)) + symx::in<size_t>(0, MAXN, "more");
    size_t b = symx::pick(0, 1, "b") * 5, next = b;
    auto f = [&](const auto& r, uint64_t) {
        size_t lo = *r.begin(), hi = *r.end();
        CHECK_(lo == next && hi > lo, "the parts of a loop do not meet");
        next = hi;
    };
    auto w = thunks::wrap(ThreadCount{k}, f, StaticPartition(b, b + n));
    for (size_t t = 0; t < k; ++t) w(t);
    CHECK_(next == b + n, "a loop does not cover all items");
    symx_reach("end");
}
ENTRY(thunk_dynamic_huge) {
    size_t n = (size_t(1) << (symx::pick(0, 1, "bits") ? 32 : 62)) + symx::in<size_t>(1, MAXN, "more");
    size_t g = n / 2 - symx::in<size_t>(0, 3, "less"), next = 0;
    auto f = [&](const auto& r, uint64_t) {
        size_t lo = *r.begin(), hi = *r.end();
        CHECK_(lo == next && hi > lo, "the parts of a loop do not meet");
        next = hi;
    };
    auto w = thunks::wrap(ThreadCount{2}, f, DynamicPartition(n, g));
    w(1);
    w(0);
    CHECK_(next == n, "a loop does not cover all items");
    symx_reach("end");
}
ENTRY(thunk_dynamic) {
    size_t n = symx::pick(0, 9, "n"), k = symx::pick(1, 3, "k"), g = symx::pick(1, 5, "g");
    thunk(DynamicPartition(n, g), n, k, 0);
    thunk(DynamicPartition(size_t(7), 7 + n, g), n, k, 7);
    std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = i;
    thunk(DynamicPartition(v, g), n, k, 0);
    symx_reach("end");
}
