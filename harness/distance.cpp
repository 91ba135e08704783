// Distances against their definitions over the integers, on exactly sized vectors.
#include "symx.h"
#include "svs/core/distance.h"
#include <memory>
#include <span>
#include <vector>
#include <cmath>
#include <bit>
using svs::Float16;
#ifndef MAXLEN
#define MAXLEN 70
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
// One element: any integer of the type's range within [lo, hi].
template <typename T> T element(int lo, int hi, int64_t& v) {
    if constexpr (std::is_same_v<T, float>) { float x = symx_range_float(lo, hi, "x"); v = (int64_t)x; return x; }
    else if constexpr (std::is_same_v<T, Float16>) {
#ifdef __F16C__
        float x = symx_range_float(lo, hi, "x"); v = (int64_t)x; return Float16(x);
#else
        bool c = symx::flag("x"); v = c ? 1 : -2; return Float16::from_raw(c ? 0x3c00 : 0xc000); // the conversion itself is V03's subject
#endif
    } else {
        T x = symx::in<T>(std::max<int>(lo, std::numeric_limits<T>::min()), std::min<int>(hi, std::numeric_limits<T>::max()), "x"); v = x; return x;
    }
}
template <typename T> struct Vec {
    std::unique_ptr<T[]> p; std::vector<int64_t> v; size_t n;
    Vec(size_t n_) : p(new T[n_]), v(n_), n(n_) {}
    void any(int lo, int hi) { for (size_t i = 0; i < n; ++i) p[i] = element<T>(lo, hi, v[i]); }
    // magnitudes fixed, signs free
    void signs(unsigned k) {
        for (size_t i = 0; i < n; ++i) {
            int m = 1 + (i * k + i / 7) % 3; bool neg = symx::flag("negative");
            int x = std::is_unsigned_v<T> ? (neg ? 0 : m) : (neg ? -m : m);
            v[i] = x; p[i] = T(float(x));
        }
    }
    template <size_t E = svs::Dynamic> std::span<const T, E> span() const { return std::span<const T, E>(p.get(), n); }
};
template <typename A, typename B, size_t E = svs::Dynamic> void sums(size_t n, int lo, int hi) {
    Vec<A> a(n); Vec<B> b(n); a.any(lo, hi); b.any(lo, hi);
    int64_t l2 = 0, ip = 0, aa = 0;
    for (size_t i = n; i-- > 0;) { int64_t d = b.v[i] - a.v[i]; l2 += d * d; ip += a.v[i] * b.v[i]; aa += a.v[i] * a.v[i]; }
    svs::distance::DistanceL2 dl; svs::distance::DistanceIP di;
    float x = svs::distance::compute(dl, a.template span<E>(), b.template span<E>());
    CHECK_(x == (float)l2, "squared distance differs from its definition");
    float y = svs::distance::compute(di, a.template span<E>(), b.template span<E>());
    CHECK_(y == (float)ip, "inner product differs from its definition");
    CHECK_(svs::distance::norm_square(a.template span<E>()) == (float)aa, "squared norm differs from its definition");
    for (size_t i = 0; i < n; ++i) CHECK_((int64_t)(float)a.p[i] == a.v[i] && (int64_t)(float)b.p[i] == b.v[i], "a distance changed its arguments");
    symx_reach("end");
}
#define LEN symx::pick(MINLEN, MAXLEN, "length")
#define SUMS(name, A, B, lo, hi) ENTRY(sum_##name) { sums<A, B>(LEN, lo, hi); } \
    ENTRY(fix_##name) { static constexpr size_t sizes[] = {1, 7, 8, 15, 16, 17, 31, 32, 33, 48, 64, 65, 96, 100, 128, 129}; \
        unsigned k = symx::pick(0, 15, "size"); \
        [&]<size_t... I>(std::index_sequence<I...>) { ((k == I ? sums<A, B, sizes[I]>(sizes[I], lo, hi) : void()), ...); }(std::make_index_sequence<16>()); }
SUMS(f32_f32, float, float, -128, 127)
SUMS(f32_i8, float, int8_t, -128, 127)
SUMS(f32_u8, float, uint8_t, 0, 255)
SUMS(f32_f16, float, Float16, -128, 127)
SUMS(f16_f32, Float16, float, -128, 127)
SUMS(f16_f16, Float16, Float16, -128, 127)
SUMS(i8_i8, int8_t, int8_t, -128, 127)
SUMS(u8_u8, uint8_t, uint8_t, 0, 255)
SUMS(i8_f32, int8_t, float, -128, 127)
SUMS(u8_f32, uint8_t, float, 0, 255)
template <typename A, typename B> void cosine(size_t n) {
    Vec<A> a(n); Vec<B> b(n); a.signs(5); b.signs(4);
    int64_t ip = 0, aa = 0, bb = 0;
    for (size_t i = n; i-- > 0;) { ip += a.v[i] * b.v[i]; aa += a.v[i] * a.v[i]; bb += b.v[i] * b.v[i]; }
    symx_assume(aa > 0 && bb > 0);
    svs::distance::DistanceCosineSimilarity d;
    d.fix_argument(a.span());
    float x = svs::distance::compute(d, a.span(), b.span());
    float want = (float)ip / (std::sqrt((float)bb) * std::sqrt((float)aa));
    CHECK_(std::bit_cast<uint32_t>(x) == std::bit_cast<uint32_t>(want) || std::fabs(x - want) <= 1e-5f, "cosine similarity differs from its definition");
    symx_reach("end");
}
#define COS(name, A, B) ENTRY(cos_##name) { cosine<A, B>(symx::pick(1, MAXLEN, "length")); }
COS(f32_f32, float, float)
COS(f32_i8, float, int8_t)
COS(f32_u8, float, uint8_t)
COS(f32_f16, float, Float16)
COS(f16_f16, Float16, Float16)
COS(i8_i8, int8_t, int8_t)
COS(u8_u8, uint8_t, uint8_t)
