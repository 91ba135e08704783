// Native twin of the harness API: replays a recorded input vector against the real build.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <thread>
#include <mutex>
#include <unistd.h>
struct In { std::string name; unsigned long long v; };
static std::vector<In> ins; static size_t pos = 0; static std::mutex mu;
static std::vector<std::thread*> threads;
static unsigned long long nextIn(const char* name) {
    std::lock_guard<std::mutex> g(mu);
    if (pos >= ins.size()) { fprintf(stderr, "REPLAY inputs exhausted at %s\n", name); fflush(stdout); _exit(78); }
    if (ins[pos].name != name) { fprintf(stderr, "REPLAY input mismatch: want %s have %s\n", name, ins[pos].name.c_str()); fflush(stdout); _exit(78); }
    return ins[pos++].v;
}
extern "C" {
void symx_symbolic(void* p, size_t n, const char* name) {
    if (n == 1 || n == 2 || n == 4 || n == 8) { unsigned long long v = nextIn(name); memcpy(p, &v, n); }
    else for (size_t i = 0; i < n; i++) { unsigned long long v = nextIn((std::string(name) + "[" + std::to_string(i) + "]").c_str()); ((char*)p)[i] = (char)v; }
}
void symx_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY assumption not met\n"); fflush(stdout); _exit(77); } }
void symx_assert(bool c, const char* msg) { if (!c) { printf("ASSERT %s\n", msg); fflush(stdout); _exit(1); } }
void symx_reach(const char*) {}
unsigned symx_choose(unsigned n, const char* name) { unsigned long long v = nextIn(name); return v < n ? (unsigned)v : 0; }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_observe(const char* name, uint64_t v) { printf("OBS %s %llu\n", name, (unsigned long long)v); }
void symx_yield() { std::this_thread::yield(); }
uint64_t symx_thread_spawn(void (*fn)(void*), void* arg) { threads.push_back(new std::thread(fn, arg)); return threads.size() - 1; }
void symx_thread_join(uint64_t t) { threads[t]->join(); }
float symx_range_float(int, int, const char* name) { return (float)(int16_t)nextIn(name); }
int64_t symx_range_int(int64_t, int64_t, const char* name) { return (int64_t)nextIn(name); }
uint64_t symx_live_heap() { return 0; }
void symx_trace(const char* n, uint64_t v) { fprintf(stderr, "TRACE %s 0x%llx\n", n, (unsigned long long)v); }
void SYMX_ENTRY();
}
int main(int argc, char** argv) {
    if (argc > 1) {
        FILE* f = fopen(argv[1], "r"); char nm[512], val[128];
        while (f && fscanf(f, "%511[^\t]\t%127s\n", nm, val) == 2) ins.push_back({nm, strtoull(val, nullptr, 0)});
        if (f) fclose(f);
    }
    SYMX_ENTRY();
    printf("DONE\n"); fflush(stdout);
    _exit(0);
}
