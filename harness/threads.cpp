// Worker threads, the pool, parallel loops, and locks under every interleaving (within the preemption bound).
#include "symx.h"
#include "svs/lib/concurrency/readwrite_protected.h"
#include "svs/lib/spinlock.h"
#include "svs/lib/threads.h"
#include <string>
#include <vector>
using namespace svs;
using namespace svs::threads;
using Pool = NativeThreadPool;
#ifndef MAXTHREADS
#define MAXTHREADS 2
#endif
#ifndef JOBS
#define JOBS 2
#endif
constexpr size_t M = 4;
template <typename F> static bool threw(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }

// ---- parallel loops: plain (not atomic) writes, read by the caller afterwards
struct Loop {
    int count[M] = {};
    size_t tids[M] = {};
    void check(size_t n, size_t threads) {
        bool once = true, rest = true, tid = true;
        for (size_t i = 0; i < M; ++i) { if (i < n) { once &= count[i] == 1; tid &= tids[i] < threads; } else rest &= count[i] == 0; count[i] = 0; }
        CHECK_(once, "a parallel loop did not run every item exactly once, or returned early");
        CHECK_(rest, "a parallel loop ran an item that does not exist");
        CHECK_(tid, "a parallel loop passed a thread number that does not exist");
    }
    auto body() { return [this](const auto& range, uint64_t tid) { for (auto i : range) { count[i]++; tids[i] = tid; } }; }
};
template <typename P> void loops(P& pool, bool dynamic, unsigned maxn, unsigned rounds) {
    Loop l;
    for (unsigned r = 0; r < rounds; ++r) {
        size_t n = symx::in<size_t>(0, maxn, "items");
        if (dynamic) run(pool, DynamicPartition{n, symx::in<size_t>(1, size_t(1) << 32, "grain")}, l.body());
        else run(pool, StaticPartition{n}, l.body());
        l.check(n, pool.size());
    }
    symx_reach("end");
}
ENTRY(loop_static) { Pool p(2, 1ul); loops(p, false, 2, 2); }
ENTRY(loop_static_spin) { Pool p(2, 1000ul); loops(p, false, 2, 2); }
ENTRY(loop_dynamic) { Pool p(2, 1ul); loops(p, true, 3, 1); }
ENTRY(loop_three) { Pool p(3, 1ul); loops(p, true, 3, 1); }
ENTRY(loop_sequential) { SequentialThreadPool p; loops(p, symx::pick(0, 1, "dynamic"), 4, 2); }
ENTRY(loop_each) {
    Pool p(symx::pick(0, MAXTHREADS, "threads"), 1ul);
    int ran[M] = {};
    for (int r = 1; r <= 2; ++r) {
        run(p, [&](size_t tid) { ran[tid]++; });
        bool good = true;
        for (size_t i = 0; i < M; ++i) good &= ran[i] == (i < p.size() ? r : 0);
        CHECK_(good, "a job did not run exactly once on each thread");
    }
    symx_reach("end");
}
// resizing between loops
ENTRY(loop_resize) {
    Pool p(symx::pick(1, 2, "threads"), 1ul);
    size_t n = symx::pick(0, 2, "new threads");
    p.resize(n);
    CHECK_(p.size() == std::max<size_t>(n, 1ul), "resizing a pool gives it another size");
    loops(p, false, 2, 1ul);
}
// moving a pool
ENTRY(loop_moved) { Pool a(2, 1ul); Pool p(std::move(a)); loops(p, false, 2, 1); }

// two callers sharing a pool
static Pool* pool_of_two;
static int calls[2][2];
ENTRY(loop_shared) {
    Pool p(2, 1ul);
    pool_of_two = &p;
    auto caller = [](int who) { run(*pool_of_two, [who](size_t tid) { calls[who][tid]++; }); CHECK_(calls[who][0] == 1 && calls[who][1] == 1, "a job did not run exactly once on each thread"); };
    static auto call = caller;
    auto other = symx_thread_spawn([](void*) { call(1); }, nullptr);
    call(0);
    symx_thread_join(other);
    CHECK_(calls[0][0] == 1 && calls[0][1] == 1 && calls[1][0] == 1 && calls[1][1] == 1, "a job did not run exactly once on each thread");
    symx_reach("end");
}

// ---- the worker handshake
static int runs[3];
static void job(void*, size_t id) { runs[id]++; }
ENTRY(worker_jobs) {
    {
        Thread t(symx::pick(1, 2, "spin"));
        unsigned jobs = symx::pick(0, JOBS, "jobs");
        for (unsigned j = 0; j < jobs; ++j) {
            FunctionRef f;
            f.fn = job;
            bool waits = j + 1 < jobs && symx::pick(0, 1, "wait");
            t.assign({f, j});
            if (waits) { t.wait(); CHECK_(runs[j] == 1, "a worker was reported done before its job was"); }
        }
        if (symx::pick(0, 1, "wait")) {
            t.wait();
            for (unsigned j = 0; j < 3; ++j) CHECK_(runs[j] == (j < jobs), "a job was lost or run twice");
            CHECK_(t.is_okay() && t.is_running(), "a healthy worker is reported broken");
        }
        unsigned how = symx::pick(0, 2, "end");
        if (how == 1) { t.shutdown(); CHECK_(t.is_shutdown() && t.is_okay() && !t.is_running(), "a worker is not shut down after its shutdown"); t.shutdown(); }
        if (how == 2) { t.request_shutdown(); t.wait_for_shutdown(); CHECK_(t.is_shutdown(), "a worker is not shut down after its shutdown"); }
        if (how) { FunctionRef f; f.fn = job; CHECK_(threw([&] { t.assign({f, 2}); }) && runs[2] == 0, "work was accepted by a worker that is shut down"); }
        if (!how) { symx_reach("destroyed"); }
        for (unsigned j = 0; how && j < 3; ++j) CHECK_(runs[j] == (j < jobs), "a job was lost or run twice");
        symx_observe("jobs", jobs);
    }
    symx_reach("end");
}
ENTRY(worker_moved) {
    Thread a(1);
    Thread t(std::move(a));
    FunctionRef f;
    f.fn = job;
    t.assign({f, 1});
    t.wait();
    CHECK_(runs[1] == 1, "a job was lost or run twice");
    a.shutdown();
    symx_reach("end");
}
// the bare control block: sleeping and waking
ENTRY(worker_sleep) {
    Thread t(1);
    FunctionRef f;
    f.fn = job;
    for (unsigned j = 0; j < 3; ++j) { t.unsafe_assign_blocking({f, j}); CHECK_(runs[j] == 1, "a worker was reported done before its job was"); }
    symx_reach("end");
}

// ---- failing jobs
struct Odd { int x; };
static void fail(unsigned kind) {
    if (kind == 1) throw std::runtime_error("failure");
    if (kind == 2) throw ANNEXCEPTION("failure");
    if (kind == 3) throw Odd{3};
}
static bool any_throw(auto&& f, bool& message) {
    try { f(); return false; }
    catch (const ThreadingException& e) { message = true; return true; }
    catch (const std::exception& e) { return true; }
    catch (...) { return true; }
}
static void failing(unsigned threads, unsigned kinds, bool resize) {
    Pool p(threads, 1ul);
    unsigned kind[3] = {};
    bool bad = false;
    for (unsigned i = 0; i < threads; ++i) { kind[i] = symx::pick(0, kinds, "failure"); bad |= kind[i] != 0; }
    int started[3] = {}, ended[3] = {};
    bool message = false;
    bool t = any_throw([&] { run(p, [&](size_t tid) { started[tid]++; if (kind[tid]) { ended[tid]++; fail(kind[tid]); } ended[tid]++; }); }, message);
    CHECK_(t == bad, "a failing job is not reported, or an error is reported without one");
    CHECK_(!bad || message, "a failing job is reported by something other than a threading exception");
    bool all = true;
    for (unsigned i = 0; i < threads; ++i) all &= started[i] == 1 && ended[i] == 1;
    CHECK_(all, "the error was reported while a worker had not finished");
    CHECK_(p.size() == threads, "a failing job changed the number of threads");
    Loop l;
    run(p, StaticPartition{size_t(2)}, l.body());
    l.check(2, threads);
    symx_reach(bad ? "failed" : "fine");
}
ENTRY(fail_one) { failing(1, 3, false); }
ENTRY(fail_two) { failing(2, 1, false); }
ENTRY(fail_kinds) { failing(2, 3, false); }
ENTRY(fail_three) { failing(3, 1, false); }
// two callers sharing a pool, one of them with a failing job
static unsigned where;
ENTRY(fail_shared) {
    Pool p(2, 1ul);
    pool_of_two = &p;
    where = symx::pick(0, 2, "failing thread");
    static auto call = [](int who) {
        bool message = false;
        bool t = any_throw([&] { run(*pool_of_two, [&](size_t tid) { calls[who][tid]++; if (who == 1 && tid == where) fail(1); }); }, message);
        CHECK_(t == (who == 1 && where < 2), "a failing job is not reported, or an error is reported to another caller");
        CHECK_(calls[who][0] == 1 && calls[who][1] == 1, "a job did not run exactly once on each thread");
    };
    auto other = symx_thread_spawn([](void*) { call(1); }, nullptr);
    call(0);
    symx_thread_join(other);
    CHECK_(p.size() == 2, "a failing job changed the number of threads");
    symx_reach("end");
}
ENTRY(fail_worker) {
    Thread t(1);
    auto thrower = [](size_t) { throw std::runtime_error("failure"); };
    FunctionRef f(thrower), g;
    g.fn = job;
    t.assign({f, 1});
    bool w = symx::pick(0, 1, "wait");
    if (w) { t.wait(); CHECK_(!t.is_okay() && !t.is_running(), "a crashed worker is reported healthy"); }
    CHECK_(threw([&] { t.assign({g, 1}); }) && runs[1] == 0, "work was accepted by a crashed worker");
    symx_reach("end");
}

// ---- locks
static SpinLock lock;
static int inside, total;
ENTRY(lock_spin) {
    auto f = [](void*) {
        for (int i = 0; i < 2; ++i) {
            if (i == 0) lock.lock(); else while (!lock.try_lock()) { symx_yield(); }
            CHECK_(inside == 0, "two threads hold the lock");
            CHECK_(lock.islocked(), "a held lock is reported free");
            inside = 1;
            total++;
            inside = 0;
            lock.unlock();
        }
    };
    auto a = symx_thread_spawn(f, nullptr), b = symx_thread_spawn(f, nullptr);
    symx_thread_join(a); symx_thread_join(b);
    CHECK_(total == 4 && !lock.islocked(), "an update under the lock was lost");
    CHECK_(lock.try_lock() && !lock.try_lock(), "a free lock cannot be taken, or a held one can");
    symx_reach("end");
}
struct Two { int a = 0, b = 0; std::string s; };
static lib::ReadWriteProtected<Two>* shared;
ENTRY(lock_value) {
    lib::ReadWriteProtected<Two> v{Two{1, 1}};
    shared = &v;
    auto w = symx_thread_spawn([](void*) { Two t{2, 2}; shared->set(t); shared->set(Two{3, 3}); }, nullptr);
    auto r = symx_thread_spawn([](void*) { Two t = shared->get(); CHECK_(t.a == t.b && t.a >= 1 && t.a <= 3, "a shared value was read half written"); lib::ReadWriteProtected<Two> c(*shared); Two u = c.get(); CHECK_(u.a == u.b && u.a >= t.a, "a copy of a shared value is torn or older than an earlier read"); }, nullptr);
    Two t = v.get();
    CHECK_(t.a == t.b, "a shared value was read half written");
    symx_thread_join(w); symx_thread_join(r);
    CHECK_(v.get().a == 3, "the last value set was lost");
    symx_reach("end");
}
ENTRY(lock_assign) {
    using P = lib::ReadWriteProtected<Two>;
    P a{Two{1, 1}}, b{Two{2, 2}};
    unsigned how = symx::pick(0, 5, "how");
    P* r = &a;
    if (how == 0) r = &(a = b);
    else if (how == 1) r = &(a = std::move(b));
    else if (how == 2) { const P& s = a; r = &(a = s); }
    else if (how == 3) a.set(b.get());
    else if (how == 4) { P c(b); a.set(std::move(c).get()); }
    else { P c(std::move(b)); a.set(c.get()); }
    CHECK_(r == &a, "an assignment does not return the object it assigns to");
    CHECK_(a.get().a == (how == 2 ? 1 : 2) && a.get().b == a.get().a, "an assignment did not take the value");
    if (how == 0) CHECK_(b.get().a == 2, "an assignment changed its source");
    symx_reach("end");
}
