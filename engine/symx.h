// Harness API. The same harness is executed symbolically by symx and natively for replay.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" {
void symx_symbolic(void* p, size_t n, const char* name);
void symx_assume(bool c);
void symx_assert(bool c, const char* msg);
void symx_reach(const char* label);
unsigned symx_choose(unsigned n, const char* name);
uint64_t symx_concretize(uint64_t v);
void symx_observe(const char* name, uint64_t v);
void symx_yield();
uint64_t symx_thread_spawn(void (*fn)(void*), void* arg);
void symx_thread_join(uint64_t t);
float symx_range_float(int lo, int hi, const char* name);
int64_t symx_range_int(int64_t lo, int64_t hi, const char* name);
uint64_t symx_live_heap();
void symx_trace(const char* n, uint64_t v);
}
namespace symx {
template <class T> inline T any(const char* name) { T t; symx_symbolic(&t, sizeof(T), name); return t; }
// any T in [lo, hi]
template <class T> inline T in(T lo, T hi, const char* name) { return (T)symx_range_int((int64_t)lo, (int64_t)hi, name); }
inline bool flag(const char* name) { uint8_t b; symx_symbolic(&b, 1, name); symx_assume(b < 2); return b == 1; }
// a concrete value in [lo, hi], one path for each
inline unsigned pick(unsigned lo, unsigned hi, const char* name) { return lo + symx_choose(hi - lo + 1, name); }
inline float rawf(const char* name) { float f; symx_symbolic(&f, 4, name); return f; }
// any finite float (no NaN, no infinity)
inline float finite(const char* name) { uint32_t u; symx_symbolic(&u, 4, name); symx_assume((u & 0x7f800000u) != 0x7f800000u); float f; __builtin_memcpy(&f, &u, 4); return f; }
inline float notnan(const char* name) { uint32_t u; symx_symbolic(&u, 4, name); symx_assume((u & 0x7fffffffu) <= 0x7f800000u); float f; __builtin_memcpy(&f, &u, 4); return f; }
}
#define CHECK_(c, msg) symx_assert(bool(c), msg)
#define ENTRY(name) extern "C" __attribute__((used, noinline)) void name()
