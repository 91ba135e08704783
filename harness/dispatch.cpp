// Method dispatch: any scores, any registration order.
#define FMT_HEADER_ONLY 1
#include "symx.h"
#include "svs/lib/dispatcher.h"
#include <array>
#include <memory>
#include <string>
#include <variant>
#include <vector>
#ifndef TARGETS
#define TARGETS 3
#endif
using namespace svs;
constexpr size_t MAXT = 4;
struct Arg { int64_t score[MAXT]; uint32_t payload; };
template <size_t I> struct To { uint32_t payload; };
template <size_t I> struct Flagged { uint32_t payload; };
struct MoveOnly { int64_t score[MAXT]; std::unique_ptr<uint32_t> payload; };
template <size_t I> struct Moved { std::unique_ptr<uint32_t> payload; };
struct Other { uint32_t payload; };
template <> struct svs::lib::DispatchConverter<Arg, To<0>> { static int64_t match(const Arg& a) { return a.score[0]; } static To<0> convert(Arg a) { return {a.payload}; } };
template <size_t I> struct svs::lib::DispatchConverter<Arg, To<I>> { static int64_t match(const Arg& a) { return a.score[I]; } static To<I> convert(Arg a) { return {a.payload}; } static std::string description() { return "to"; } };
template <size_t I> struct svs::lib::DispatchConverter<const Arg&, To<I>> { static int64_t match(const Arg& a) { return a.score[I]; } static To<I> convert(const Arg& a) { return {a.payload}; } };
template <size_t I> struct svs::lib::DispatchConverter<Arg&, To<I>> { static int64_t match(const Arg& a) { return a.score[I]; } static To<I> convert(Arg& a) { return {a.payload++}; } };
template <size_t I> struct svs::lib::DispatchConverter<Arg, Flagged<I>> { static bool match(const Arg& a) { return a.score[I] > 5; } static Flagged<I> convert(Arg a) { return {a.payload}; } };
template <size_t I> struct svs::lib::DispatchConverter<MoveOnly, Moved<I>> { static int64_t match(const MoveOnly& a) { return a.score[I]; } static Moved<I> convert(MoveOnly&& a) { return {std::move(a.payload)}; } };
template <size_t I> struct svs::lib::DispatchConverter<Other, To<I>> { static int64_t match(const Other&) { return lib::imperfect_match; } static To<I> convert(Other a) { return {a.payload + 1000}; } };

struct Called { size_t count = 0, which = 99; uint32_t sum = 0; };
static Called called;
template <size_t M, size_t N> bool valid(const std::array<std::array<int64_t, N>, M>& s, size_t i) { for (auto x : s[i]) if (x < 0) return false; return true; }
// index of the best row, or -1
template <size_t M, size_t N> int expected(const std::array<std::array<int64_t, N>, M>& s, size_t used) {
    int best = -1;
    for (size_t i = 0; i < used; ++i) {
        if (!valid(s, i)) continue;
        if (best < 0) { best = int(i); continue; }
        bool better = false, decided = false;
        for (size_t k = 0; k < N; ++k) { bool less = s[i][k] < s[best][k], same = s[i][k] == s[best][k]; better |= !decided & less; decided |= !same; }
        if (better) best = int(i);
    }
    return best;
}
template <typename D, typename... A> void check(D& d, int want, bool move, A&&... a) {
    auto [index, score] = d.best_match(a...);
    CHECK_(index.has_value() == (want >= 0) && d.has_match(a...) == (want >= 0), "a match is reported where there is none, or missed");
    if (want >= 0) CHECK_(*index == size_t(want), "not the best match");
    called = {}; bool threw = false; size_t r = 99;
    try { r = d.invoke(std::forward<A>(a)...); } catch (const ANNException&) { threw = true; }
    CHECK_(threw == (want < 0), "invoking without a match does not fail, or fails with one");
    CHECK_(called.count == (want >= 0), "not exactly one target is called");
    if (want >= 0) { CHECK_(r == size_t(want) && called.which == size_t(want), "a target other than the best is called"); symx_reach("end"); } else symx_reach("none");
}
// targets registered in any order: slot i accepts score[order[i]]
template <size_t I, typename D, bool Docs> void add_two(D& d, size_t slot) {
    auto f = [slot](To<I> a, To<I> b) { ++called.count; called.which = slot; called.sum = a.payload + 2 * b.payload; return slot; };
    if (Docs) d.register_target(lib::dispatcher_build_docs, f); else d.register_target(f);
}
template <typename A, bool Docs> void two() {
    lib::Dispatcher<size_t, A, A> d; size_t n = symx::pick(0, TARGETS, "targets");
    Arg x, y; x.payload = symx::any<uint32_t>("payload"); y.payload = symx::any<uint32_t>("payload");
    std::array<std::array<int64_t, 2>, TARGETS> s{}; bool used[MAXT] = {};
    for (size_t t = 0; t < MAXT; ++t) { x.score[t] = symx::any<int64_t>("score"); y.score[t] = symx::any<int64_t>("score"); }
    for (size_t i = 0; i < n; ++i) {
        size_t t = symx::pick(0, TARGETS - 1, "target"); if (used[t]) return; used[t] = true; // every order
        s[i] = {x.score[t], y.score[t]};
        if (t == 0) add_two<0, decltype(d), Docs>(d, i); if (t == 1) add_two<1, decltype(d), Docs>(d, i); if (t == 2) add_two<2, decltype(d), Docs>(d, i); if (t == 3) add_two<3, decltype(d), Docs>(d, i);
    }
    CHECK_(d.size() == n && d.num_args() == 2, "the number of targets is wrong");
    int want = expected(s, n); uint32_t sum = x.payload + 2 * y.payload;
    auto m = d.best_match(x, y);
    if (want >= 0) CHECK_(m.second == s[want], "the score of the best match is wrong");
    check(d, want, false, x, y);
    if (want >= 0) CHECK_(called.sum == sum, "arguments reach the target changed");
}
ENTRY(scores_value) { two<Arg, false>(); }
ENTRY(scores_reference) { two<const Arg&, true>(); }
template <size_t I, typename D> void add_three(D& d) { d.register_target([](To<I> a, To<0> b, To<(I + 1) % 3> c) { ++called.count; called.which = I; called.sum = a.payload + 2 * b.payload + 4 * c.payload; return I; }); }
ENTRY(scores_three) {
    lib::Dispatcher<size_t, Arg, const Arg&, Arg> d; add_three<0>(d); add_three<1>(d); add_three<2>(d);
    Arg a[3]; for (auto& x : a) { x.payload = symx::any<uint32_t>("payload"); for (auto& s : x.score) s = symx::any<int64_t>("score"); }
    std::array<std::array<int64_t, 3>, 3> s; for (size_t i = 0; i < 3; ++i) s[i] = {a[0].score[i], a[1].score[0], a[2].score[(i + 1) % 3]};
    uint32_t sum = a[0].payload + 2 * a[1].payload + 4 * a[2].payload;
    int want = expected(s, 3); check(d, want, false, a[0], a[1], a[2]);
    if (want >= 0) CHECK_(called.sum == sum, "arguments reach the target changed");
}
// yes/no matches
ENTRY(yes_or_no) {
    lib::Dispatcher<size_t, Arg, Arg> d;
    d.register_target([](Flagged<0>, To<0>) { ++called.count; called.which = 0; return size_t(0); });
    d.register_target([](To<1>, Flagged<1>) { ++called.count; called.which = 1; return size_t(1); });
    d.register_target([](Flagged<2>, Flagged<0>) { ++called.count; called.which = 2; return size_t(2); });
    Arg x{}, y{}; for (auto& s : x.score) s = symx::any<int64_t>("score"); for (auto& s : y.score) s = symx::any<int64_t>("score");
    auto b = [](int64_t v) { return v > 5 ? int64_t(0) : int64_t(-1); };
    std::array<std::array<int64_t, 2>, 3> s{{{b(x.score[0]), y.score[0]}, {x.score[1], b(y.score[1])}, {b(x.score[2]), b(y.score[0])}}};
    check(d, expected(s, 3), false, x, y);
}
// values that can only be moved
ENTRY(moved) {
    lib::Dispatcher<size_t, MoveOnly> d; uint32_t v = symx::any<uint32_t>("payload");
    d.register_target([](Moved<0> m) { ++called.count; called.which = 0; called.sum = *m.payload; return size_t(0); });
    d.register_target([](Moved<1> m) { ++called.count; called.which = 1; called.sum = *m.payload; return size_t(1); });
    d.register_target([](Moved<2> m) { ++called.count; called.which = 2; called.sum = *m.payload; return size_t(2); });
    MoveOnly x; x.payload = std::make_unique<uint32_t>(v); for (auto& s : x.score) s = symx::any<int64_t>("score");
    std::array<std::array<int64_t, 1>, 3> s{{{x.score[0]}, {x.score[1]}, {x.score[2]}}}; int want = expected(s, 3);
    check(d, want, true, std::move(x)); if (want >= 0) CHECK_(called.sum == v, "arguments reach the target changed");
}
// unions: scored by the alternative they hold
template <typename V> void unions(V v, std::array<int64_t, 3> score, uint32_t payload) {
    lib::Dispatcher<size_t, V> d;
    d.register_target([](To<0> m) { ++called.count; called.which = 0; called.sum = m.payload; return size_t(0); });
    d.register_target([](Flagged<1> m) { ++called.count; called.which = 1; called.sum = m.payload; return size_t(1); });
    d.register_target([](To<2> m) { ++called.count; called.which = 2; called.sum = m.payload; return size_t(2); });
    std::array<std::array<int64_t, 1>, 3> s{{{score[0]}, {score[1]}, {score[2]}}}; int want = expected(s, 3);
    check(d, want, false, v); if (want >= 0) CHECK_(called.sum == payload, "arguments reach the target changed");
}
ENTRY(alternatives) {
    using V = std::variant<Arg, Other, std::string>;
    unsigned alt = symx::pick(0, 2, "alternative"); uint32_t p = symx::any<uint32_t>("payload");
    if (alt == 0) { Arg x; x.payload = p; for (auto& s : x.score) s = symx::any<int64_t>("score"); unions<V>(x, {x.score[0], x.score[1] > 5 ? 0 : -1, x.score[2]}, p); }
    if (alt == 1) unions<V>(Other{p}, {lib::imperfect_match, -1, lib::imperfect_match}, p + 1000);
    if (alt == 2) unions<V>(std::string("none"), {-1, -1, -1}, 0);
}
ENTRY(alternatives_reference) {
    using V = std::variant<std::string, Arg>; lib::Dispatcher<size_t, const V&> d;
    d.register_target([](To<1> m) { ++called.count; called.which = 0; called.sum = m.payload; return size_t(0); });
    d.register_target([](const std::string& m) { ++called.count; called.which = 1; called.sum = uint32_t(m.size()); return size_t(1); });
    d.register_target([](To<2> m) { ++called.count; called.which = 2; called.sum = m.payload; return size_t(2); });
    if (symx::pick(0, 1, "alternative")) {
        Arg x; x.payload = symx::any<uint32_t>("payload"); for (auto& s : x.score) s = symx::any<int64_t>("score");
        std::array<std::array<int64_t, 1>, 3> s{{{x.score[1]}, {-1}, {x.score[2]}}}; int want = expected(s, 3); const V v = x;
        check(d, want, false, v); if (want >= 0) CHECK_(called.sum == x.payload, "arguments reach the target changed");
    } else { const V v = std::string("abc"); check(d, 1, false, v); CHECK_(called.sum == 3, "arguments reach the target changed"); }
}
// references: implicit conversions, and arguments that may be changed
ENTRY(references) {
    lib::Dispatcher<size_t, Arg&> d; Arg x{}; x.payload = 5; x.score[1] = symx::any<int64_t>("score"); x.score[2] = symx::any<int64_t>("score");
    d.register_target([](const Arg& a) { ++called.count; called.which = 0; called.sum = a.payload; return size_t(0); });
    d.register_target([](To<1> a) { ++called.count; called.which = 1; called.sum = a.payload; return size_t(1); });
    d.register_target([](To<2> a) { ++called.count; called.which = 2; called.sum = a.payload; return size_t(2); });
    std::array<std::array<int64_t, 1>, 3> s{{{lib::implicit_match}, {x.score[1]}, {x.score[2]}}}; int want = expected(s, 3);
    check(d, want, false, x); CHECK_(called.sum == 5 && x.payload == (want ? 6 : 5), "an argument passed by reference is not the caller's");
}
// fixed and run-time lengths
template <size_t N> void add_extent(lib::Dispatcher<size_t, lib::ExtentArg>& d, size_t slot) { d.register_target([slot](lib::ExtentTag<N>) { ++called.count; called.which = slot; return slot; }); }
ENTRY(extents) {
    lib::Dispatcher<size_t, lib::ExtentArg> d; size_t n = symx::pick(0, 3, "targets"); const size_t ext[3] = {128, 4, Dynamic}; std::vector<size_t> have;
    for (size_t i = 0; i < n; ++i) { unsigned t = symx::pick(0, 2, "extent"); have.push_back(ext[t]); if (t == 0) add_extent<128>(d, i); if (t == 1) add_extent<4>(d, i); if (t == 2) add_extent<Dynamic>(d, i); }
    size_t v = symx::any<size_t>("extent"); bool force = symx::flag("force");
    int exact = -1, fallback = -1;
    for (size_t i = n; i--;) { if (have[i] == v) exact = int(i); if (have[i] == Dynamic) fallback = int(i); }
    int want = exact >= 0 ? exact : force ? -1 : fallback;
    check(d, want, false, lib::ExtentArg(v, force));
    if (!force) check(d, want, false, lib::ExtentArg(v));
    if (v == Dynamic) check(d, fallback, false, lib::ExtentArg());
}
// element types
template <typename T> void add_type(lib::Dispatcher<size_t, DataType, lib::ExtentArg>& d, size_t slot) { d.register_target([slot](lib::Type<T>, lib::ExtentTag<Dynamic>) { ++called.count; called.which = slot; return slot; }); }
ENTRY(element_types) {
    lib::Dispatcher<size_t, DataType, lib::ExtentArg> d; add_type<float>(d, 0); add_type<int8_t>(d, 1); add_type<uint8_t>(d, 2); add_type<float>(d, 3); add_type<Float16>(d, 4);
    d.register_target([](lib::Type<float>, lib::ExtentTag<16>) { ++called.count; called.which = 5; return size_t(5); });
    DataType t = DataType(symx::any<std::underlying_type_t<DataType>>("type")); size_t v = symx::any<size_t>("extent"); bool force = symx::flag("force");
    bool dyn = v == Dynamic || !force; int want = -1;
    if (t == DataType::float32) want = v == 16 ? 5 : dyn ? 0 : -1;
    if (t == DataType::int8 && dyn) want = 1;
    if (t == DataType::uint8 && dyn) want = 2;
    if (t == DataType::float16 && dyn) want = 4;
    check(d, want, false, t, lib::ExtentArg(v, force));
}
// descriptions: only of what exists
ENTRY(descriptions) {
    lib::Dispatcher<size_t, Arg, lib::ExtentArg> d;
    d.register_target([](To<1>, lib::ExtentTag<7>) { return size_t(0); });
    d.register_target(lib::dispatcher_build_docs, [](To<1>, lib::ExtentTag<7>) { return size_t(0); });
    d.register_target(lib::dispatcher_build_docs, [](To<0>, lib::ExtentTag<Dynamic>) { return size_t(0); });
    size_t m = symx::in<size_t>(0, 9, "method"), a = symx::in<size_t>(0, 9, "argument"); if (symx::pick(0, 1, "huge")) m = ~m; bool threw = false; std::string s;
    try { s = d.description(m, a); } catch (const ANNException&) { threw = true; }
    CHECK_(threw == (m >= 3 || a >= 2), "a description of something that does not exist");
    if (!threw) { const char* want[3][2] = {{"unknown", "unknown"}, {"to", "7"}, {"unknown", "any"}}; CHECK_(s == want[m][a], "the description belongs to something else"); symx_reach("end"); }
}
