// Calibration of search parameters: any recall (growing with window and capacity), any search times.
#include "symx.h"
#include "svs/index/vamana/calibrate.h"
#include "svs/index/vamana/extensions.h"
#ifndef UPPER
#define UPPER 4
#endif
#ifndef DEGREES
#define DEGREES 0, 1, 3
#endif
#ifndef TIMES
#define TIMES 3
#endif
using namespace svs;
using namespace svs::index::vamana;
using Opt = CalibrationParameters::SearchBufferOptimization;
struct Plain {};
struct Reranked {};
constexpr bool svs_invoke(svs::tag_t<extensions::calibration_uses_reranking<Reranked>>) { return true; }

// The clock moves on by a symbolic time during a search and by a very long time otherwise.
static int64_t epoch = 0, spent = 0;
static bool searched = false;
static bool simple_clock = false;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    if (simple_clock) return time_point(std::chrono::nanoseconds(epoch));
    if (searched) { searched = false; return time_point(std::chrono::nanoseconds(epoch + spent)); }
    epoch += 1000000000000;
    return time_point(std::chrono::nanoseconds(epoch));
}
static int64_t some_time() { uint8_t t = symx::any<uint8_t>("time"); symx_assume(t < TIMES); return t == 0 ? 1000 : t == 1 ? 2000 : t == 2 ? 3000 : 4000; }
static double level(uint8_t r) { return r == 0 ? 0.25 : r == 1 ? 0.5 : r == 2 ? 0.75 : 1.0; }

struct World {
    size_t k;
    uint8_t target, r[UPPER + 3][UPPER + 3];
    struct Measured { size_t w, c, look, step; int64_t t; };
    std::vector<Measured> times{};
    std::vector<std::pair<size_t, size_t>> tried{};
    bool sound = true, kept = true;
    bool visited;
    explicit World(size_t k_) : k(k_) {
        target = symx::any<uint8_t>("target");
        symx_assume(target < 4);
        bool mono = true;
        for (size_t w = 1; w < UPPER + 3; ++w)
            for (size_t c = w; c < UPPER + 3; ++c) {
                r[w][c] = symx::any<uint8_t>("recall");
                mono = mono & (r[w][c] < 4);
                if (c > w) mono = mono & (r[w][c] >= r[w][c - 1]);
                if (w > 1) mono = mono & (r[w][c] >= r[w - 1][c]);
            }
        symx_assume(mono);
        visited = symx::flag("visited");
    }
    uint8_t raw(const VamanaSearchParameters& p) const { return r[p.buffer_config_.get_search_window_size()][p.buffer_config_.get_total_capacity()]; }
    double recall(const VamanaSearchParameters& p) {
        size_t w = p.buffer_config_.get_search_window_size(), c = p.buffer_config_.get_total_capacity();
        if (w < 1 || c < w || c < k || c > UPPER + 2) { sound = false; return 0; }
        kept = kept & (p.search_buffer_visited_set_ == visited);
        tried.emplace_back(w, c);
        return level(r[w][c]);
    }
    int64_t time(const VamanaSearchParameters& p) {
        size_t w = p.buffer_config_.get_search_window_size(), c = p.buffer_config_.get_total_capacity();
        for (auto& m : times) if (m.w == w && m.c == c && m.look == p.prefetch_lookahead_ && m.step == p.prefetch_step_) return m.t;
        times.push_back({w, c, p.prefetch_lookahead_, p.prefetch_step_, some_time()});
        return times.back().t;
    }
    bool measured(const VamanaSearchParameters& p) const {
        for (auto& m : times) if (m.w == p.buffer_config_.get_search_window_size() && m.c == p.buffer_config_.get_total_capacity() && m.look == p.prefetch_lookahead_ && m.step == p.prefetch_step_) return true;
        return false;
    }
    void search(const VamanaSearchParameters& p) { kept = kept & (p.search_buffer_visited_set_ == visited); spent = time(p); searched = true; }
};
template <typename D> struct Index {
    using data_type = D;
    VamanaSearchParameters p;
    size_t degree;
    VamanaSearchParameters get_search_parameters() const { return p; }
    size_t max_degree() const { return degree; }
};
static CalibrationParameters setup(Opt mode, size_t upper, bool prefetch) {
    CalibrationParameters c;
    c.search_window_size_upper_ = upper;
    c.search_window_capacity_upper_ = UPPER + symx_choose(2, "more_capacity");
    c.timing_iterations_ = 1;
    c.search_timeout_ = 1e300;
    c.prefetch_steps_ = {1};
    c.search_buffer_optimization_ = mode;
    c.train_prefetchers_ = prefetch;
    return c;
}
template <typename D> static void buffers(Opt mode) {
    size_t k = symx::pick(1, 2, "neighbors"), upper = symx::pick(2, UPPER, "upper");
    World x(k);
    auto c = setup(mode, upper, false);
    size_t w0 = 1, c0 = mode == Opt::ROITuneUp ? symx::pick(1, 3, "capacity") : 2;
    Index<D> index{VamanaSearchParameters(SearchBufferConfig(w0, c0), x.visited, 7, 3), 4};
    auto p = calibrate(c, index, k, level(x.target), [&](const VamanaSearchParameters& q) { return x.recall(q); }, [&](const VamanaSearchParameters& q) { x.search(q); });
    size_t w = p.buffer_config_.get_search_window_size(), cap = p.buffer_config_.get_total_capacity();
    CHECK_(x.sound, "a setting was tried that cannot hold the neighbors asked for");
    CHECK_(w >= 1 && cap >= w && cap >= k && w <= upper && cap <= UPPER + 1, "calibration returned a setting outside its bounds");
    CHECK_(x.kept && p.search_buffer_visited_set_ == x.visited && p.prefetch_lookahead_ == 7 && p.prefetch_step_ == 3, "calibration changed a setting it was not asked to optimize");
    // What could be reached: windows from the smallest allowed one to the upper bound.
    bool tuneup = mode == Opt::ROITuneUp;
    size_t lower = tuneup && c0 >= k ? 1 : k;
    auto capacity = [&](size_t window) { return tuneup ? (window > c0 ? window : c0) : window; };
    uint8_t best = x.r[upper][capacity(upper)];
    uint8_t got = x.raw(p);
    CHECK_(best < x.target || got >= x.target, "the target recall was possible but the chosen setting misses it");
    CHECK_(best >= x.target || got >= best, "the target recall was impossible and the chosen setting is not the best there is");
    if (!std::is_same_v<D, Reranked>) {
        bool smaller = false;
        if (mode == Opt::All && w < k) {
            CHECK_(cap == k, "a window below the number of neighbors needs just that capacity");
            for (size_t v = 1; v < w; ++v) smaller = smaller | (x.r[v][k] >= x.target);
        } else {
            CHECK_(cap == capacity(w), "calibration chose another capacity than the window asks for");
            for (size_t v = lower; v < w; ++v) smaller = smaller | (x.r[v][capacity(v)] >= x.target);
            if (mode == Opt::All && w == k) for (size_t v = 1; v < w; ++v) smaller = smaller | (x.r[v][k] >= x.target);
        }
        CHECK_(!smaller, "a smaller window reaches the target recall");
    } else if (x.times.size() != 0) {
        CHECK_(x.measured(p), "the chosen setting was never measured");
        bool fastest = true;
        int64_t t = x.time(p);
        for (auto& m : x.times) fastest = fastest & ((t <= m.t) | (x.r[m.w][m.c] < x.target));
        CHECK_(fastest, "a faster setting was measured");
        symx_reach("split");
    }
    symx_reach("end");
}
ENTRY(window_only) { buffers<Plain>(Opt::ROIOnly); }
ENTRY(window_capacity) { buffers<Plain>(Opt::ROITuneUp); }
ENTRY(below_neighbors) { buffers<Plain>(Opt::All); }
ENTRY(split_buffer) { buffers<Reranked>(Opt::All); }
ENTRY(both) {
    size_t k = 1, upper = symx::pick(1, 2, "upper");
    World x(k);
    auto c = setup(Opt::ROIOnly, upper, true);
    Index<Plain> index{VamanaSearchParameters(SearchBufferConfig(1, 2), x.visited, 7, 3), 1};
    auto p = calibrate(c, index, k, level(x.target), [&](const VamanaSearchParameters& q) { return x.recall(q); }, [&](const VamanaSearchParameters& q) { x.search(q); });
    size_t w = p.buffer_config_.get_search_window_size();
    CHECK_(p.buffer_config_.get_total_capacity() == w && x.kept, "tuning prefetching changed another setting");
    if (x.times.empty()) {
        CHECK_(x.r[upper][upper] < x.target, "prefetching was not tuned though the target recall is possible");
        CHECK_(p.prefetch_lookahead_ == 7 && p.prefetch_step_ == 3, "prefetching was changed without measuring it");
        symx_reach("impossible");
    } else {
        CHECK_(x.raw(p) >= x.target, "the chosen setting misses the target recall");
        bool fastest = true;
        CHECK_(x.measured(p), "the chosen prefetching was never measured");
        int64_t t = x.time(p);
        for (auto& m : x.times) fastest = fastest & (t <= m.t);
        CHECK_(fastest, "a faster prefetching was measured");
        symx_reach("tuned");
    }
}
ENTRY(prefetching) {
    World x(1);
    static const size_t degrees[] = {DEGREES};
    size_t degree = degrees[symx_choose(sizeof(degrees) / sizeof(*degrees), "degree")];
    auto c = setup(Opt::Disable, 4, true);
    bool existing = true;
    if (degree < 2) {
        if (symx_choose(2, "steps")) c.prefetch_steps_ = {1, 2};
        existing = symx_choose(2, "existing");
    }
    c.use_existing_parameter_values_ = existing;
    if (!existing) { auto d = VamanaSearchParameters(); symx_assume(x.visited == d.search_buffer_visited_set_); }
    Index<Plain> index{VamanaSearchParameters(SearchBufferConfig(1, 2), x.visited, 7, 3), degree};
    auto p = calibrate(c, index, 1, 1.0, [&](const VamanaSearchParameters&) { CHECK_(false, "recall was measured though only prefetching is tuned"); return 0.0; }, [&](const VamanaSearchParameters& q) { x.search(q); });
    auto base = existing ? index.p : VamanaSearchParameters();
    CHECK_(p.buffer_config_ == base.buffer_config_ && x.kept && p.search_buffer_visited_set_ == x.visited, "tuning prefetching changed another setting");
    CHECK_(p.prefetch_lookahead_ <= degree, "more vectors are prefetched than a node has neighbors");
    CHECK_(x.measured(p), "the chosen prefetching was never measured");
    bool fastest = true;
    int64_t t = x.time(p);
    for (auto& m : x.times) fastest = fastest & (t <= m.t);
    CHECK_(fastest, "a faster prefetching was measured");
    symx_reach("end");
}
ENTRY(measuring) {
    simple_clock = true;
    CalibrationParameters c;
    c.timing_iterations_ = symx::pick(1, 3, "iterations");
    uint8_t limit = symx::any<uint8_t>("timeout");
    symx_assume(limit < 5);
    c.search_timeout_ = limit;
    size_t n = 0;
    uint8_t least = 255, total = 0, before = 0;
    double got = calibration::get_search_time(c, [&](const VamanaSearchParameters&) {
        uint8_t t = symx::any<uint8_t>("time");
        symx_assume(t < 3);
        epoch += int64_t(t) * 1000000000;
        least = t < least ? t : least;
        before = total;
        total += t;
        ++n;
    }, VamanaSearchParameters());
    CHECK_(n >= 1 && n <= c.timing_iterations_, "another number of searches was measured");
    CHECK_(n == c.timing_iterations_ || total > limit, "measuring ended before the time limit");
    CHECK_(n == 1 || before <= limit, "measuring went on after the time limit");
    CHECK_(got == double(least), "the time measured is not that of the fastest search");
    symx_reach("end");
}
