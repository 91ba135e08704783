// Half-precision conversion: every half and every single precision bit pattern.
#include "symx.h"
#include "svs/lib/float16.h"
#include <cstring>
#include <unordered_set>
using svs::Float16;
static uint32_t bits(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
static float fromBits(uint32_t u) { float x; memcpy(&x, &u, 4); return x; }
static bool isNan16(uint16_t h) { return (h & 0x7fff) > 0x7c00; }
static bool isNan32(uint32_t u) { return (u & 0x7fffffffu) > 0x7f800000u; }
// The value of a finite half precision number is (-1)^s * k * 2^-24 with this k. Everything below is integer arithmetic.
static uint64_t scaled16(uint16_t h) { uint32_t e = (h >> 10) & 31, m = h & 0x3ff; return e ? (uint64_t(m | 0x400)) << (e - 1) : m; }
// Same number as a single precision bit pattern, computed from the definition of the two formats.
static uint32_t widen(uint16_t h) {
    uint32_t s = uint32_t(h >> 15) << 31, e = (h >> 10) & 31, m = h & 0x3ff;
    if (e == 31) return s | 0x7f800000u;
    if (e) return s | ((e + 112) << 23) | (m << 13);
    for (int b = 9; b >= 0; --b)
        if (m >> b & 1) return s | (uint32_t(b + 103) << 23) | ((m << (23 - b)) & 0x7fffffu);
    return s;
}
ENTRY(widening) {
    uint16_t h = symx::any<uint16_t>("h");
    Float16 x = Float16::from_raw(h);
    CHECK_(x.raw() == h, "raw value is not kept");
    float f = x;
    if (isNan16(h)) { CHECK_(isNan32(bits(f)), "NaN became a number"); symx_reach("nan"); return; }
    symx_observe("f", bits(f));
    CHECK_(bits(f) == widen(h), "half precision value changed when converted to single precision");
    CHECK_(Float16(f).raw() == h, "half precision value does not survive a round trip");
    symx_reach("end");
}
ENTRY(narrowing) {
    uint32_t u = symx::any<uint32_t>("u");
    float f = fromBits(u);
    uint16_t r = Float16(f).raw();
    uint32_t mag = u & 0x7fffffffu;
    if (isNan32(u)) { CHECK_(isNan16(r), "NaN became a number"); symx_reach("nan"); return; }
    symx_observe("r", r);
    CHECK_((r >> 15) == (u >> 31), "sign changed");
    CHECK_(!isNan16(r), "number became NaN");
    uint16_t h = r & 0x7fff;
    // Infinity exactly from 65520 = 2^16 - 2^4 on, half way beyond the largest finite number.
    CHECK_((h == 0x7c00) == (mag >= 0x477ff000u), "overflow to infinity is wrong");
    if (h == 0x7c00) { symx_reach("inf"); return; }
    // |f| = (m | 2^23) * 2^(e - 150). Numbers below 2^-25 (half of the smallest half precision number) round to zero.
    uint32_t e = mag >> 23, m = mag & 0x7fffffu;
    if (e < 102) { CHECK_(h == 0, "tiny number did not round to zero"); symx_reach("tiny"); return; }
    // In units of 2^-48 all three fit 64 bits (differences are exact modulo 2^64 where 2^16 itself appears).
    uint64_t v = uint64_t(m | 0x800000u) << (e - 102);
    uint64_t mid = scaled16(h) << 24, below = h ? scaled16(h - 1) << 24 : 0, above = scaled16(h + 1) << 24;
    bool even = !(h & 1);
    if (v > mid) CHECK_(even ? v - mid <= above - v : v - mid < above - v, "not rounded to the nearest half precision number (even on ties)");
    if (v < mid) CHECK_(even ? mid - v <= v - below : mid - v < v - below, "not rounded to the nearest half precision number (even on ties)");
    symx_reach("end");
}
ENTRY(assignment) {
    uint32_t u = symx::any<uint32_t>("u");
    float f = fromBits(u);
    Float16 a(f), b = Float16::from_raw(symx::any<uint16_t>("old"));
    Float16& r = (b = f);
    CHECK_(&r == &b, "assignment returns something else");
    CHECK_(a.raw() == b.raw(), "construction and assignment convert differently");
    // equality is equality of the values
    uint16_t h = symx::any<uint16_t>("h");
    Float16 c = Float16::from_raw(h);
    bool same = !isNan16(h) && !isNan16(a.raw()) && (a.raw() == h || ((a.raw() | h) & 0x7fff) == 0);
    CHECK_((a == c) == same, "equality is not the equality of the values");
    symx_observe("same", same);
    symx_reach("end");
}
ENTRY(integers) {
    // construction from int and size_t: the converted value or a refusal, never a different one for exactly representable numbers
    int i = symx::in<int>(-70000, 70000, "i");
    uint16_t want = Float16(float(i)).raw();
    CHECK_(Float16(i).raw() == want, "conversion of an int is wrong");
    if (i >= 0) CHECK_(Float16(size_t(i)).raw() == want, "conversion of a size is wrong");
    if (i >= -2048 && i <= 2048) CHECK_(float(Float16(i)) == float(i), "small integer changed");
    double d = double(float(i)) / 4;
    CHECK_(Float16(d).raw() == Float16(float(d)).raw(), "conversion of a double is wrong");
    symx_reach("end");
}
