// symx: a symbolic executor for LLVM bitcode, deciding assertions with Z3.
//
//   symx MODULE.bc --entry=NAME [--out=FILE.json] [options]
//
// The harness and the code under test are executed together. Every value derived from
// symx_symbolic() is a bit-vector expression; branches whose condition is symbolic fork the
// state when the solver says both outcomes are feasible. Memory is byte precise; out of bounds,
// use after free, uninitialised-value dependences, failed assertions, uncaught exceptions,
// reached `unreachable`s and deadlocks are reported with a concrete input (and schedule).
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <csignal>
#include <deque>
#include <set>
#include <unordered_set>

using namespace llvm;

static ExprCtx X;
static Solver* SV;
static const DataLayout* DL;
static Module* MOD;

// ------------------------------------------------------------------------------ options
static double optTime = 600;
static uint64_t optMaxInst = 50000000;
static int optPreempt = 2;
static int optMaxErrors = 12;
static bool optUninit = true;
static bool optTrace = false;
static int optSamplePaths = 0;
static bool optRace = false;
static size_t optIteMax = 64;
static int optIdleMax = 64;
static bool optHangError = true;
static uint64_t optSeed = 1;

struct Val {
    E e = nullptr; uint64_t c = 0; uint32_t w = 0;
    std::shared_ptr<std::vector<Val>> agg;
    bool isC() const { return !e && !agg; }
};
static inline Val mkC(uint64_t c, unsigned w) { Val v; v.c = c & maskw(w); v.w = w; return v; }
static inline Val mkV(E e) { if (e->op == OpConst && e->w <= 64) return mkC(e->c, e->w); Val v; v.e = e; v.w = e->w; return v; }
static inline E toE(const Val& v) { if (v.e) return v.e; if (v.agg) { fprintf(stderr, "toE on aggregate\n"); abort(); } return X.cst(v.c, v.w); }
static Val mkAgg(std::vector<Val> v) { Val r; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
static Val bad() { return Val(); }

// ------------------------------------------------------------------------------ memory
struct Obj {
    int refs = 0;
    uint64_t base, size, vsize = 0; // vsize > size: only the first size bytes are backed
    uint8_t kind; // 0 global 1 stack 2 malloc 3 new 4 new[] 5 exception 6 mmap
    bool ro = false;
    int frameTid = -1;
    const char* name = "";
    std::vector<uint8_t> b;
    std::vector<E> s;          // empty = all concrete
    std::vector<uint8_t> init; // empty = all initialised
    // Writes at symbolic offsets into a large object, newest last; ver[b] = number of log
    // entries older than the last direct write of byte b; stale = bytes the log may affect.
    struct LogE { E off; unsigned n; E val; };
    std::vector<LogE> log; std::vector<uint8_t> ver; uint64_t stale = 0;
    void direct(uint64_t off, uint64_t n) {
        if (log.empty()) return;
        for (uint64_t i = off; i < off + n; i++) if (ver[i] < log.size()) { ver[i] = (uint8_t)log.size(); stale--; }
        if (!stale) { log.clear(); ver.clear(); }
    }
    bool logged(uint64_t off, uint64_t n) const { if (!log.empty()) for (uint64_t i = off; i < off + n; i++) if (ver[i] < log.size()) return true; return false; }
};
struct ObjP {
    Obj* p = nullptr;
    ObjP() {}
    ObjP(Obj* q) : p(q) { p->refs++; }
    ObjP(const ObjP& o) : p(o.p) { if (p) p->refs++; }
    ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP& operator=(ObjP o) { std::swap(p, o.p); return *this; }
    ~ObjP() { if (p && --p->refs == 0) delete p; }
};

struct KInst; struct KFunc;
struct Frame {
    KFunc* f; uint32_t pc = 0; int prevBB = -1;
    std::vector<Val> r;
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs; uint64_t vaArea = 0;
};
enum TS { TRun, TBlockMutex, TBlockCond, TBlockJoin, TYield, TDone, TBlockRd, TBlockFutex };
struct Exc { uint64_t obj, ti; int handlers = 0; int refs = 1; uint64_t id = 0; };
struct Thread {
    std::vector<Frame> st;
    TS status = TRun; uint64_t waitA = 0, waitB = 0; uint64_t yieldEpoch = 0;
    bool skipSched = false; int timedOut = 0;
    std::vector<uint64_t> caught; // exception object addresses
    std::map<const GlobalVariable*, uint64_t> tls;
    std::vector<uint32_t> vc;
    std::vector<std::pair<uint64_t,uint64_t>> atExit;
    int phase = 0;
};
struct MutexSt { int owner = -1; int readers = 0; int count = 0; std::vector<uint32_t> vc; };
struct Observ { std::string name; Val v; };
struct AccessRec { uint32_t wt = 0, wc = 0; std::vector<uint32_t> rc; };

struct State {
    uint64_t id = 0;
    std::vector<ObjP> mem; size_t lastHit = 0;
    uint64_t next = 0x100000000ull;
    std::vector<E> pc;
    ModelP model;
    std::vector<Thread> th; int cur = 0; int preempt = 0; uint64_t epoch = 0; int idleYields = 0;
    std::map<uint64_t, MutexSt> mtx;
    std::map<uint64_t, Exc> excs;
    std::vector<std::pair<std::string, E>> inputs; // symbolic inputs in order
    std::vector<Observ> obs;
    std::vector<std::string> sched;
    std::vector<std::string> reach;
    uint64_t insts = 0; int depth = 0;
    uint64_t clockNs = 1000000000ull;
    std::map<uint64_t, std::vector<uint32_t>> syncVC;   // address -> release clock
    std::map<uint64_t, AccessRec> shadow;
    uint64_t uninitCount = 0;
    Frame& F() { return th[cur].st.back(); }
    Thread& T() { return th[cur]; }
};

struct KInst { Instruction* I; int dst; std::vector<int> ops; unsigned opc; uint32_t w; int64_t off; std::vector<std::pair<int, int64_t>> gep; Function* callee = nullptr; int handler = -1; KFunc* kcallee = nullptr; int t0 = -1, t1 = -1; };
struct KFunc {
    Function* F; std::vector<KInst> code; std::vector<uint32_t> bbStart; std::unordered_map<const BasicBlock*, int> bbIdx; unsigned nslots = 0; bool ready = false; bool touched = false;
    std::vector<int> bbOf;
    std::vector<std::map<int, std::vector<std::pair<int,int>>>> phis; // bb -> pred -> (dst, op)
    std::string dem; int noop = 0;
};
static std::unordered_map<Function*, std::unique_ptr<KFunc>> KF;
static std::vector<Val> constTab;
static std::unordered_map<const Constant*, int> constIdx;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> faddr;
static std::unordered_map<uint64_t, const GlobalValue*> addrGV;
static std::unordered_set<const GlobalVariable*> tlsVars;

static std::deque<State*> work;
static uint64_t nStates = 0, nPaths = 0, nInst = 0, nForks = 0, nAsserts = 0, nAssertsSymbolic = 0, nKilledAssume = 0, nUnsupported = 0, nLimit = 0, nUndecided = 0;
static std::map<std::string, uint64_t> reachCount;
static std::map<std::string, uint64_t> unsupportedMsgs;
static std::set<std::string> funcsExecuted;
struct ErrRec { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack, sched; };
static std::vector<ErrRec> errors;
static std::set<std::string> errKeys;
struct PathRec { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, uint64_t>> obs; std::string end; };
static std::vector<PathRec> samplePaths;
static double tStart;
static std::string outFile;
static bool incomplete = false; static std::string incompleteWhy;

struct Kill { };         // path ends
[[noreturn]] static void killPath() { throw Kill(); }

// ------------------------------------------------------------------------------ helpers
static std::string hex(u128 v) { char b[64]; if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

static std::string locOf(Instruction* I) {
    if (!I) return "?";
    if (auto d = I->getDebugLoc()) {
        std::string s; 
        const DILocation* L = d.get();
        // innermost location inside /repo if any
        const DILocation* pick = L;
        for (const DILocation* q = L; q; q = q->getInlinedAt()) { if (q->getFilename().contains("svs/")) { pick = q; break; } }
        return (pick->getFilename() + ":" + std::to_string(pick->getLine())).str();
    }
    return "?";
}
static std::vector<std::string> stackOf(State& S) {
    std::vector<std::string> r;
    for (int i = (int)S.T().st.size() - 1; i >= 0 && r.size() < 30; i--) {
        auto& f = S.T().st[i];
        Instruction* I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        r.push_back(f.f->dem.substr(0, 160) + " @ " + locOf(I));
    }
    return r;
}
static void collectInputs(State& S, const ModelP& m, std::vector<std::pair<std::string, std::string>>& out) {
    X.newEval();
    static const ExprCtx::Model empty;
    for (auto& in : S.inputs) out.push_back({in.first, hex(X.eval(in.second, m ? *m : empty))});
}
static void report(State& S, const std::string& kind, const std::string& msg, ModelP m, bool kill = true) {
    Instruction* I = nullptr;
    if (!S.T().st.empty()) { auto& f = S.F(); if (f.pc < f.f->code.size()) I = f.f->code[f.pc].I; }
    std::string loc = locOf(I);
    std::string key = kind + "|" + msg + (kind == "assert" ? "" : "|" + loc);
    if (errKeys.insert(key).second) {
        ErrRec r; r.kind = kind; r.msg = msg; r.loc = loc; r.stack = stackOf(S); r.sched = S.sched;
        collectInputs(S, m ? m : S.model, r.inputs);
        errors.push_back(r);
        fprintf(stderr, "ERROR %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
        for (auto& s : r.stack) fprintf(stderr, "    %s\n", s.c_str());
        std::string in; for (auto& p : r.inputs) in += p.first + "=" + p.second + " ";
        fprintf(stderr, "    inputs: %s\n", in.c_str());
    }
    if (kill) killPath();
}
[[noreturn]] static void unsupported(State& S, const std::string& msg) {
    nUnsupported++;
    Instruction* I = nullptr;
    if (!S.T().st.empty()) { auto& f = S.F(); if (f.pc < f.f->code.size()) I = f.f->code[f.pc].I; }
    std::string k = msg + " at " + locOf(I);
    if (!unsupportedMsgs[k]++) {
        fprintf(stderr, "UNSUPPORTED %s\n", k.c_str());
        for (auto& s : stackOf(S)) fprintf(stderr, "    %s\n", s.c_str());
    }
    killPath();
}

// ------------------------------------------------------------------------------ state ops
static State* cloneState(State& S) { State* n = new State(S); n->id = ++nStates; n->depth++; nForks++; return n; }
static bool evalTrue(State& S, E c) { if (c->op == OpConst) return c->c; X.newEval(); static const ExprCtx::Model em; return X.eval(c, S.model ? *S.model : em) != 0; }

// add constraint (known feasible or to be checked). returns false when infeasible.
static bool addC(State& S, E c, bool knownSat = false, ModelP m = nullptr) {
    if (c->op == OpConst) return c->c;
    // split conjunctions
    if (m) S.model = m;
    else if (!evalTrue(S, c)) {
        ModelP nm; int r = SV->check(S.pc, c, S.model, &nm);
        if (r == 0) return false;
        if (r < 0) { nUndecided++; return false; }
        S.model = nm;
    }
    (void)knownSat;
    std::vector<E> st{c};
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == OpAnd && x->w == 1) { st.push_back(x->k[0]); st.push_back(x->k[1]); } else if (x->op != OpConst) S.pc.push_back(x); }
    return true;
}
static void checkTaint(State& S, E c, const char* what) {
    if (!c->tainted || !optUninit) return;
    // does the outcome depend on an uninitialised byte?
    std::unordered_map<E, E> m, cache;
    for (auto id : *X.symsOf(c)) if (X.syms[id].uninit) {
        Expr t; memset((void*)&t, 0, sizeof t); t.op = OpSym; t.w = X.syms[id].w; t.c = id; t.tainted = 1;
        E se = X.intern(t); m[se] = X.sym("uninit'", X.syms[id].w, true);
    }
    E c2 = X.subst(c, m, cache);
    E d = c->w == 1 ? X.bin(OpXor, c, c2) : X.lnot(X.eq(c, c2));
    ModelP nm;
    if (SV->check(S.pc, d, S.model, &nm) == 1) report(S, "uninit", std::string("outcome of ") + what + " depends on an uninitialised value", nm);
}
// decide a boolean: returns 1/0 for S, forking a sibling that re-executes the instruction if both feasible
static bool decide(State& S, E c, const char* what = "branch") {
    if (c->op == OpConst) return c->c;
    checkTaint(S, c, what);
    bool v = evalTrue(S, c);
    E other = v ? X.lnot(c) : c;
    ModelP om; int r = SV->check(S.pc, other, S.model, &om);
    E mine = v ? c : X.lnot(c);
    if (r < 0) { nUndecided++; incomplete = true; incompleteWhy = "solver timeout on a branch"; addC(S, mine); }
    if (r == 1) {
        State* o = cloneState(S);
        addC(*o, other, true, om);
        work.push_back(o);
        addC(S, mine);
    }
    // if only one outcome is feasible the constraint is implied
    return v;
}
static uint64_t concretize(State& S, Val& v, const char* what = "value") {
    if (v.isC()) return v.c;
    E e = v.e;
    checkTaint(S, e, what);
    X.newEval(); static const ExprCtx::Model em;
    uint64_t val = (uint64_t)X.eval(e, S.model ? *S.model : em);
    E c = X.eq(e, X.cst(val, e->w));
    ModelP om; int r = SV->check(S.pc, X.lnot(c), S.model, &om);
    if (r < 0) { nUndecided++; incomplete = true; incompleteWhy = "solver timeout on concretisation"; addC(S, c); }
    if (r == 1) { State* o = cloneState(S); addC(*o, X.lnot(c), true, om); work.push_back(o); addC(S, c); }
    v = mkC(val, e->w);
    return val;
}
// true iff c must hold
static int mustHold(State& S, E c, ModelP* cex) {
    if (c->op == OpConst) { if (!c->c && cex) *cex = S.model; return c->c ? 1 : 0; }
    if (!evalTrue(S, c)) { if (cex) *cex = S.model; return 0; }
    int r = SV->check(S.pc, X.lnot(c), S.model, cex);
    return r == 0 ? 1 : r == 1 ? 0 : -1;
}

// ------------------------------------------------------------------------------ memory ops
static uint64_t allocObj(State& S, uint64_t size, uint8_t kind, uint64_t align, bool init, const char* name) {
    if (align < 16) align = 16;
    uint64_t a = (S.next + align - 1) / align * align;
    uint64_t vsize = size; S.next = a + size + 48;
    if (kind >= 2 && size > (1u << 18)) size = kind == 6 ? 4096 : 65536;
    Obj* o = new Obj; o->vsize = vsize; o->base = a; o->size = size; o->kind = kind; o->name = name; o->b.assign(size, init ? 0 : 0xAA);
    if (!init) o->init.assign(size, 0);
    o->frameTid = S.cur;
    S.mem.push_back(ObjP(o));
    return a;
}
static int findObj(State& S, uint64_t a) {
    if (S.lastHit < S.mem.size()) { Obj* o = S.mem[S.lastHit].p; if (a >= o->base && a < o->base + o->size) return (int)S.lastHit; }
    size_t lo = 0, hi = S.mem.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (S.mem[m].p->base <= a) lo = m + 1; else hi = m; }
    if (!lo) return -1;
    Obj* o = S.mem[lo - 1].p;
    if (a < o->base + o->size || (a == o->base && o->size == 0)) { S.lastHit = lo - 1; return (int)lo - 1; }
    return -1;
}
static Obj* wr(State& S, int i) { // COW
    Obj* o = S.mem[i].p;
    if (o->refs > 1) { Obj* n = new Obj(*o); n->refs = 0; S.mem[i] = ObjP(n); return n; }
    return o;
}
static void freeObj(State& S, int i) { S.mem.erase(S.mem.begin() + i); S.lastHit = 0; }

static E byteE(State& S, int oi, uint64_t off) {
    Obj* o = S.mem[oi].p;
    if (!o->init.empty() && !o->init[off]) {
        o = wr(S, oi);
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        o->s[off] = X.sym("uninit", 8, true);
        o->init[off] = 1;
        S.uninitCount++;
    }
    o = S.mem[oi].p;
    if (!o->s.empty() && o->s[off]) return o->s[off];
    return X.cst(o->b[off], 8);
}
static Val readBase(State& S, int oi, uint64_t off, unsigned n);
static Val readC(State& S, int oi, uint64_t off, unsigned n) { // n bytes little endian
    Val v = readBase(S, oi, off, n);
    Obj* o = S.mem[oi].p;
    if (o->log.empty() || !o->logged(off, n)) return v;
    E e = toE(v);
    for (size_t j = o->ver[off]; j < o->log.size(); j++) {
        if (o->log[j].n != n || o->ver[off] != o->ver[off + n - 1]) unsupported(S, "mixed-width access to a symbolically indexed object");
        e = X.ite(X.eq(o->log[j].off, X.cst(off, 64)), o->log[j].val, e);
    }
    return mkV(e);
}
static Val readBase(State& S, int oi, uint64_t off, unsigned n) {
    Obj* o = S.mem[oi].p;
    bool conc = true;
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { conc = false; break; }
    if (conc && !o->init.empty()) for (unsigned i = 0; i < n; i++) if (!o->init[off + i]) { conc = false; break; }
    if (conc && n <= 8) { uint64_t v = 0; memcpy(&v, &o->b[off], n); return mkC(v, n * 8); }
    if (conc && n <= 16) { u128 v = 0; memcpy(&v, &o->b[off], n); return mkV(X.cst128(v, n * 8)); }
    E e = nullptr;
    for (unsigned i = 0; i < n; i++) { E b = byteE(S, oi, off + i); e = e ? X.concat(b, e) : b; }
    return mkV(e);
}
static void writeC(State& S, int oi, uint64_t off, unsigned n, const Val& v) {
    Obj* o = wr(S, oi);
    if (v.isC() && n <= 8) {
        memcpy(&o->b[off], &v.c, n);
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
    } else {
        E e = toE(v);
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        for (unsigned i = 0; i < n; i++) {
            E b = X.extract(e, i * 8, 8);
            if (b->op == OpConst) { o->b[off + i] = (uint8_t)b->c; o->s[off + i] = nullptr; }
            else o->s[off + i] = b;
        }
    }
    if (!o->init.empty()) for (unsigned i = 0; i < n; i++) o->init[off + i] = 1;
    o->direct(off, n);
}
static std::string objDesc(State& S, uint64_t a) {
    // nearest object at or below
    size_t lo = 0, hi = S.mem.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (S.mem[m].p->base <= a) lo = m + 1; else hi = m; }
    char buf[300];
    if (a < 4096) { snprintf(buf, sizeof buf, "null page address 0x%llx", (unsigned long long)a); return buf; }
    std::string r;
    if (lo) { Obj* o = S.mem[lo - 1].p; if (o->vsize > o->size && a >= o->base && a < o->base + o->vsize) unsupported(S, "access beyond the backed part of a large allocation"); }
    if (lo) { Obj* o = S.mem[lo - 1].p; if (a - (o->base + o->size) < 4096) { snprintf(buf, sizeof buf, "%lld bytes past the end of a %llu-byte %s object %s", (long long)(a - o->base - o->size), (unsigned long long)o->size, o->kind == 1 ? "stack" : o->kind == 0 ? "global" : "heap", o->name); r = buf; return r; } }
    if (lo < S.mem.size()) { Obj* o = S.mem[lo].p; if (o->base - a < 4096) { snprintf(buf, sizeof buf, "%lld bytes before a %llu-byte object %s", (long long)(o->base - a), (unsigned long long)o->size, o->name); return buf; } }
    return "unmapped or freed memory";
}
// Resolve an access of n bytes; addr may be symbolic. Returns object index; off receives offset
// (symbolic offsets are returned in offE).
static int resolve(State& S, Val& addr, uint64_t n, uint64_t& off, E& offE, bool write) {
    offE = nullptr;
    if (addr.isC()) {
        if (n == 0) { off = 0; return -2; }
        int oi = findObj(S, addr.c);
        if (oi < 0 || addr.c - S.mem[oi].p->base + n > S.mem[oi].p->size) {
            if (oi >= 0 && S.mem[oi].p->vsize > S.mem[oi].p->size) objDesc(S, addr.c);
            std::string d = oi < 0 ? objDesc(S, addr.c) : "crossing the end of a " + std::to_string(S.mem[oi].p->size) + "-byte object (offset " + std::to_string(addr.c - S.mem[oi].p->base) + ", " + std::to_string(n) + " bytes) " + S.mem[oi].p->name;
            report(S, "memory", std::string(write ? "invalid write: " : "invalid read: ") + d, nullptr);
        }
        if (write && S.mem[oi].p->ro) report(S, "memory", "write to constant memory", nullptr);
        off = addr.c - S.mem[oi].p->base;
        return oi;
    }
    E e = addr.e;
    checkTaint(S, e, "address");
    X.newEval(); static const ExprCtx::Model em;
    uint64_t val = (uint64_t)X.eval(e, S.model ? *S.model : em);
    int oi = findObj(S, val);
    if (oi < 0 || val - S.mem[oi].p->base + n > S.mem[oi].p->size) report(S, "memory", std::string(write ? "invalid write: " : "invalid read: ") + objDesc(S, val), S.model);
    Obj* o = S.mem[oi].p;
    E offx = X.bin(OpSub, e, X.cst(o->base, 64));
    E in = X.bin(OpUle, offx, X.cst(o->size - n, 64));
    ModelP om; int r = SV->check(S.pc, X.lnot(in), S.model, &om);
    if (r == 1) { State* q = cloneState(S); addC(*q, X.lnot(in), true, om); work.push_back(q); addC(S, in); }
    else if (r < 0) { nUndecided++; incomplete = true; incompleteWhy = "solver timeout on bounds"; }
    offE = offx;
    return oi;
}
static unsigned tz(E e) { // known trailing zero bits
    if (e->op == OpConst) return e->c ? __builtin_ctzll(e->c) : 64;
    if (e->op == OpConcat) { if (e->k[1]->op == OpConst && X.cv(e->k[1]) == 0) return e->k[1]->w + tz(e->k[0]); return tz(e->k[1]); }
    if (e->op == OpAdd) return std::min(tz(e->k[0]), tz(e->k[1]));
    if (e->op == OpMul) return std::min(63u, tz(e->k[0]) + tz(e->k[1]));
    if (e->op == OpZExt || e->op == OpSExt) return tz(e->k[0]);
    if (e->op == OpIte) return std::min(tz(e->k[1]), tz(e->k[2]));
    return 0;
}
static uint64_t concretizeOff(State& S, E offE) { Val v = mkV(offE); return concretize(S, v, "address"); }

static uint64_t cells(State& S, Obj* o, E offE, unsigned n, unsigned& st, uint64_t& res);
static Val readMem(State& S, Val addr, unsigned n) {
    uint64_t off; E offE; int oi = resolve(S, addr, n, off, offE, false);
    if (oi == -2) return mkC(0, 1);
    if (!offE) return readC(S, oi, off, n);
    Obj* o = S.mem[oi].p;
    unsigned st; uint64_t res, cnt = cells(S, o, offE, n, st, res);
    if (cnt > optIteMax) {
        // large table: one common concrete value plus few exceptions
        bool ok = st >= n && n <= 8; std::vector<uint64_t> exc; std::unordered_map<uint64_t, uint64_t> hist; uint64_t common = 0;
        auto plain = [&](uint64_t at, uint64_t& v) {
            for (unsigned i = 0; i < n; i++) { if (!o->s.empty() && o->s[at + i]) return false; if (!o->init.empty() && !o->init[at + i]) return false; if (!o->log.empty() && o->ver[at + i]) return false; }
            v = 0; memcpy(&v, &o->b[at], n); return true; };
        if (ok) {
            uint64_t v; for (uint64_t k = 0; k < cnt && hist.size() < 64; k++) if (plain(res + k * st, v)) hist[v]++;
            uint64_t best = 0; for (auto& h : hist) if (h.second > best) { best = h.second; common = h.first; }
            for (uint64_t k = 0; k < cnt && exc.size() <= optIteMax; k++) if (!plain(res + k * st, v) || v != common) exc.push_back(res + k * st);
            ok = exc.size() <= optIteMax;
            for (auto& l : o->log) if (l.n != n) ok = false;
        }
        if (!ok) { off = concretizeOff(S, offE); return readC(S, oi, off, n); }
        E r = X.cst(common, n * 8);
        for (auto& l : o->log) r = X.ite(X.eq(l.off, offE), l.val, r);
        for (uint64_t at : exc) r = X.ite(X.eq(offE, X.cst(at, 64)), toE(readC(S, oi, at, n)), r);
        return mkV(r);
    }
    E r = nullptr;
    for (uint64_t k = 0; k < cnt; k++) {
        E x = toE(readC(S, oi, res + k * st, n));
        r = r ? X.ite(X.eq(offE, X.cst(res + k * st, 64)), x, r) : x;
    }
    return mkV(r);
}
static uint64_t cells(State& S, Obj* o, E offE, unsigned n, unsigned& st, uint64_t& res) {
    st = 1u << std::min(tz(offE), 6u);
    // offsets r, r+st, ... -> compute start residue from model
    X.newEval(); static const ExprCtx::Model em0; uint64_t v0 = (uint64_t)X.eval(offE, S.model ? *S.model : em0);
    res = st > 1 ? (v0 % st) : 0;
    if (st == 1) { // try: offset = const + aligned
        if (offE->op == OpAdd && offE->k[1]->op == OpConst) { unsigned t = 1u << std::min(tz(offE->k[0]), 6u); st = t; res = v0 % st; }
    }
    return o->size >= n ? (o->size - n - res) / st + 1 : 0;
}
static void writeMem(State& S, Val addr, unsigned n, const Val& v) {
    uint64_t off; E offE; int oi = resolve(S, addr, n, off, offE, true);
    if (oi == -2) return;
    if (offE) {
        unsigned st; uint64_t res; Obj* o = S.mem[oi].p;
        if (cells(S, o, offE, n, st, res) > optIteMax && st >= n && o->log.size() < 250) {
            bool same = true; for (auto& l : o->log) if (l.n != n) same = false;
            if (same) {
                if (!o->init.empty()) for (auto b : o->init) if (!b) { same = false; break; }
            }
            if (same) { o = wr(S, oi); if (o->log.empty()) o->ver.assign(o->size, 0); o->log.push_back({offE, n, toE(v)}); o->stale = o->size; return; }
        }
        off = concretizeOff(S, offE);
    }
    writeC(S, oi, off, n, v);
}
static uint64_t typeBits(Type* t) { return DL->getTypeSizeInBits(t).getFixedValue(); }
static uint64_t typeStore(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static uint64_t typeAlloc(Type* t) { return DL->getTypeAllocSize(t).getFixedValue(); }
static bool isScalar(Type* t) { return t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy(); }

static Val addrAdd(const Val& a, uint64_t k) { if (a.isC()) return mkC(a.c + k, 64); return mkV(X.bin(OpAdd, a.e, X.cst(k, 64))); }

static Val loadT(State& S, const Val& addr, Type* t) {
    if (isScalar(t)) {
        unsigned bits = typeBits(t), n = (bits + 7) / 8;
        Val v = readMem(S, addr, n);
        if (n * 8 != bits) v = mkV(X.extract(toE(v), 0, bits));
        return v;
    }
    if (auto vt = dyn_cast<FixedVectorType>(t)) {
        unsigned eb = typeBits(vt->getElementType());
        std::vector<Val> r;
        if (eb % 8) { // bit-packed vector
            unsigned tot = eb * vt->getNumElements();
            Val v = readMem(S, addr, (tot + 7) / 8);
            for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(mkV(X.extract(toE(v), i * eb, eb)));
        } else {
            Val a2 = addr;
            if (!addr.isC()) { // fix the base once
                uint64_t off; E offE; int oi = resolve(S, a2, typeStore(t), off, offE, false);
                if (offE) { off = concretizeOff(S, offE); a2 = mkC(S.mem[oi].p->base + off, 64); }
            } else { uint64_t off; E offE; resolve(S, a2, typeStore(t), off, offE, false); }
            for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(readMem(S, addrAdd(a2, i * eb / 8), eb / 8));
        }
        return mkAgg(std::move(r));
    }
    if (auto st = dyn_cast<StructType>(t)) {
        std::vector<Val> r; auto* L = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadT(S, addrAdd(addr, L->getElementOffset(i)), st->getElementType(i)));
        return mkAgg(std::move(r));
    }
    if (auto at = dyn_cast<ArrayType>(t)) {
        std::vector<Val> r; uint64_t es = typeAlloc(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) r.push_back(loadT(S, addrAdd(addr, i * es), at->getElementType()));
        return mkAgg(std::move(r));
    }
    unsupported(S, "load of type");
}
static void storeT(State& S, const Val& addr, Type* t, const Val& v) {
    if (isScalar(t)) {
        unsigned bits = typeBits(t), n = (bits + 7) / 8;
        if (n * 8 != bits) writeMem(S, addr, n, mkV(X.zext(toE(v), n * 8))); else writeMem(S, addr, n, v);
        return;
    }
    if (auto vt = dyn_cast<FixedVectorType>(t)) {
        unsigned eb = typeBits(vt->getElementType());
        if (eb % 8) {
            E e = nullptr; for (auto& x : *v.agg) e = e ? X.concat(toE(x), e) : toE(x);
            unsigned n = (e->w + 7) / 8; writeMem(S, addr, n, mkV(X.zext(e, n * 8))); return;
        }
        Val a2 = addr; uint64_t off; E offE; int oi = resolve(S, a2, typeStore(t), off, offE, true);
        if (offE) { off = concretizeOff(S, offE); a2 = mkC(S.mem[oi].p->base + off, 64); }
        for (unsigned i = 0; i < vt->getNumElements(); i++) writeMem(S, addrAdd(a2, i * eb / 8), eb / 8, (*v.agg)[i]);
        return;
    }
    if (auto st = dyn_cast<StructType>(t)) {
        auto* L = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) storeT(S, addrAdd(addr, L->getElementOffset(i)), st->getElementType(i), (*v.agg)[i]);
        return;
    }
    if (auto at = dyn_cast<ArrayType>(t)) {
        uint64_t es = typeAlloc(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) storeT(S, addrAdd(addr, i * es), at->getElementType(), (*v.agg)[i]);
        return;
    }
    unsupported(S, "store of type");
}
static Val zeroOf(Type* t) {
    if (isScalar(t)) { unsigned b = typeBits(t); return b <= 64 ? mkC(0, b) : mkV(X.cst128(0, b)); }
    std::vector<Val> r;
    if (auto vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(zeroOf(vt->getElementType())); }
    else if (auto st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(zeroOf(st->getElementType(i))); }
    else if (auto at = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < at->getNumElements(); i++) r.push_back(zeroOf(at->getElementType())); }
    return mkAgg(std::move(r));
}

// copy n bytes with symbolic content and init info
static void copyBytes(State& S, Val dst, Val src, uint64_t n) {
    if (!n) return;
    uint64_t so, dof; E sE, dE;
    int si = resolve(S, src, n, so, sE, false); if (sE) so = concretizeOff(S, sE);
    int di = resolve(S, dst, n, dof, dE, true); if (dE) dof = concretizeOff(S, dE);
    Obj* s = S.mem[si].p;
    if (s->logged(so, n)) unsupported(S, "copy out of a symbolically indexed object");
    std::vector<uint8_t> b(s->b.begin() + so, s->b.begin() + so + n);
    std::vector<E> sy; if (!s->s.empty()) sy.assign(s->s.begin() + so, s->s.begin() + so + n);
    std::vector<uint8_t> in; if (!s->init.empty()) in.assign(s->init.begin() + so, s->init.begin() + so + n);
    Obj* d = wr(S, di);
    memcpy(&d->b[dof], b.data(), n);
    bool any = false; for (E e : sy) if (e) { any = true; break; }
    if (any) { if (d->s.empty()) d->s.assign(d->size, nullptr); std::copy(sy.begin(), sy.end(), d->s.begin() + dof); }
    else if (!d->s.empty()) std::fill(d->s.begin() + dof, d->s.begin() + dof + n, nullptr);
    if (!in.empty()) {
        bool allInit = true; for (auto x : in) if (!x) { allInit = false; break; }
        if (!allInit && d->init.empty()) d->init.assign(d->size, 1);
        if (!d->init.empty()) memcpy(&d->init[dof], in.data(), n);
    } else if (!d->init.empty()) memset(&d->init[dof], 1, n);
    d->direct(dof, n);
}
static void setBytes(State& S, Val dst, Val v, uint64_t n) {
    if (!n) return;
    uint64_t dof; E dE; int di = resolve(S, dst, n, dof, dE, true); if (dE) dof = concretizeOff(S, dE);
    Obj* d = wr(S, di);
    if (v.isC()) { memset(&d->b[dof], (int)v.c, n); if (!d->s.empty()) std::fill(d->s.begin() + dof, d->s.begin() + dof + n, nullptr); }
    else { if (d->s.empty()) d->s.assign(d->size, nullptr); for (uint64_t i = 0; i < n; i++) d->s[dof + i] = v.e; }
    if (!d->init.empty()) memset(&d->init[dof], 1, n);
    d->direct(dof, n);
}
static std::string readStr(State& S, Val a, size_t max = 4096) {
    std::string r; uint64_t p = concretize(S, a);
    for (size_t i = 0; i < max; i++) { Val b = readMem(S, mkC(p + i, 64), 1); uint64_t c = b.isC() ? b.c : '?'; if (!c) break; r.push_back((char)c); }
    return r;
}

// ------------------------------------------------------------------------------ constants
static Val constVal(const Constant* C);
static void writeConst(State& S, uint64_t addr, const Constant* C) {
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C) || C->isNullValue()) return;
    if (isa<UndefValue>(C)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(S, addr + L->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(C)) { uint64_t es = typeAlloc(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(S, addr + i * es, ca->getOperand(i)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef d = cd->getRawDataValues(); int oi = findObj(S, addr); memcpy(&S.mem[oi].p->b[addr - S.mem[oi].p->base], d.data(), d.size()); return; }
    Val v = constVal(C);
    storeT(S, mkC(addr, 64), t, v);
}
static Val constGEP(const GEPOperator* g) {
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "nonconst gep in constant\n"); abort(); }
    Val b = constVal(cast<Constant>(g->getPointerOperand()));
    return mkC(b.c + off.getSExtValue(), 64);
}
static Val apVal(const APInt& a) { if (a.getBitWidth() <= 64) return mkC(a.getZExtValue(), a.getBitWidth()); if (a.getBitWidth() <= 128) return mkV(X.cst128(((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), a.getBitWidth()));
    E e = nullptr; for (unsigned i = 0; i < a.getBitWidth(); i += 64) { unsigned n = std::min(64u, a.getBitWidth() - i); E p = X.cst(a.extractBitsAsZExtValue(n, i), n); e = e ? X.mk(OpConcat, p->w + e->w, p, e) : p; } return mkV(e); }
static Val doCast(State* S, unsigned opc, Type* from, Type* to, const Val& v);
static Val constVal(const Constant* C) {
    Type* t = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) return apVal(ci->getValue());
    if (auto* cf = dyn_cast<ConstantFP>(C)) return apVal(cf->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(C)) return mkC(0, 64);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(t);
    if (auto* gv = dyn_cast<GlobalValue>(C)) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
        auto it = gaddr.find(gv); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); abort(); }
        return mkC(it->second, 64);
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { std::vector<Val> r; for (unsigned i = 0; i < cd->getNumElements(); i++) r.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(std::move(r)); }
    if (isa<ConstantAggregate>(C)) { std::vector<Val> r; for (unsigned i = 0; i < C->getNumOperands(); i++) r.push_back(constVal(cast<Constant>(C->getOperand(i)))); return mkAgg(std::move(r)); }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) return constGEP(g);
        if (ce->isCast()) return doCast(nullptr, ce->getOpcode(), ce->getOperand(0)->getType(), t, constVal(ce->getOperand(0)));
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        switch (ce->getOpcode()) {
            case Instruction::Add: return mkV(X.bin(OpAdd, toE(a), toE(b)));
            case Instruction::Sub: return mkV(X.bin(OpSub, toE(a), toE(b)));
            case Instruction::Mul: return mkV(X.bin(OpMul, toE(a), toE(b)));
            case Instruction::Xor: return mkV(X.bin(OpXor, toE(a), toE(b)));
            case Instruction::Shl: return mkV(X.bin(OpShl, toE(a), toE(b)));
            case Instruction::ICmp: {
                bool r = false; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; default: abort(); }
                return mkC(r, 1); }
            default: break;
        }
        errs() << "constexpr " << *ce << "\n"; abort();
    }
    if (isa<DSOLocalEquivalent>(C) || isa<NoCFIValue>(C)) return constVal(cast<Constant>(C->getOperand(0)));
    errs() << "const " << *C << "\n"; abort();
}

// ------------------------------------------------------------------------------ casts
static E flatten(const Val& v) { // aggregate of lanes -> bits
    if (!v.agg) return toE(v);
    E e = nullptr; for (auto& x : *v.agg) { E y = flatten(x); e = e ? X.concat(y, e) : y; } return e;
}
static Val unflatten(E e, Type* t) {
    if (auto vt = dyn_cast<FixedVectorType>(t)) { unsigned eb = typeBits(vt->getElementType()); std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(mkV(X.extract(e, i * eb, eb))); return mkAgg(std::move(r)); }
    return mkV(e);
}
static Val castLane(State* S, unsigned opc, unsigned fw, unsigned tw, const Val& v) {
    switch (opc) {
        case Instruction::Trunc: if (v.isC()) return mkC(v.c, tw); return mkV(X.extract(toE(v), 0, tw));
        case Instruction::ZExt: if (v.isC() && tw <= 64) return mkC(v.c, tw); return mkV(X.zext(toE(v), tw));
        case Instruction::SExt: if (v.isC() && tw <= 64) return mkC(sext64(v.c, fw), tw); return mkV(X.sext(toE(v), tw));
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (tw == fw) return v; if (tw < fw) return mkV(X.extract(toE(v), 0, tw)); return mkV(X.zext(toE(v), tw));
        case Instruction::SIToFP: return mkV(X.intToF(toE(v), tw, true));
        case Instruction::UIToFP: return mkV(X.intToF(toE(v), tw, false));
        case Instruction::FPToSI: return mkV(X.fToInt(toE(v), tw, true));
        case Instruction::FPToUI: return mkV(X.fToInt(toE(v), tw, false));
        case Instruction::FPExt: if (tw > 64) { if (S) unsupported(*S, "x87 float"); abort(); } return mkV(X.fext(toE(v), tw));
        case Instruction::FPTrunc: return mkV(X.ftrunc(toE(v), tw));
        default: abort();
    }
}
static Val doCast(State* S, unsigned opc, Type* from, Type* to, const Val& v) {
    if (opc == Instruction::BitCast || opc == Instruction::AddrSpaceCast) {
        if (isScalar(from) && isScalar(to)) return v;
        if (from == to) return v;
        auto* fv = dyn_cast<FixedVectorType>(from); auto* tv = dyn_cast<FixedVectorType>(to);
        if (fv && tv && typeBits(fv->getElementType()) == typeBits(tv->getElementType())) return v;
        return unflatten(flatten(v), to);
    }
    if (S && (from->getScalarType()->isX86_FP80Ty() || to->getScalarType()->isX86_FP80Ty())) {
        // long double: only concrete values
        if (!v.isC() && !(v.e && v.e->op == OpConst)) unsupported(*S, "symbolic long double");
        long double d = 0;
        auto rd80 = [&](const Val& q) { E e = toE(q); unsigned char b[16] = {0}; memcpy(b, &e->c, 8); memcpy(b + 8, &e->c2, 2); long double r; memcpy(&r, b, 16); return r; };
        if (from->isX86_FP80Ty()) d = rd80(v);
        else if (from->isFloatTy() || from->isDoubleTy()) d = ExprCtx::fval(v.c, typeBits(from));
        else d = opc == Instruction::SIToFP ? (long double)sext64(v.c, v.w) : (long double)v.c;
        if (to->isX86_FP80Ty()) { unsigned char b[16] = {0}; memcpy(b, &d, 10); uint64_t lo; uint16_t hi; memcpy(&lo, b, 8); memcpy(&hi, b + 8, 2); return mkV(X.cst128(((u128)hi << 64) | lo, 80)); }
        if (to->isFloatingPointTy()) return mkV(X.fconst((double)d, typeBits(to)));
        return mkC(opc == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d, typeBits(to));
    }
    if (auto* fv = dyn_cast<FixedVectorType>(from)) {
        std::vector<Val> r; unsigned fw = typeBits(fv->getElementType()), tw = typeBits(cast<FixedVectorType>(to)->getElementType());
        for (auto& x : *v.agg) r.push_back(castLane(S, opc, fw, tw, x));
        return mkAgg(std::move(r));
    }
    return castLane(S, opc, typeBits(from), typeBits(to), v);
}

// ------------------------------------------------------------------------------ arithmetic
static void divCheck(State& S, const Val& b) {
    if (b.isC()) { if (!b.c) report(S, "arith", "division by zero", nullptr); return; }
    ModelP m; int r = mustHold(S, X.lnot(X.eq(toE(b), X.cst(0, b.w))), &m);
    if (r == 0) report(S, "arith", "division by zero", m, false);
    if (!addC(S, X.lnot(X.eq(toE(b), X.cst(0, b.w))))) killPath();
}
static Val binLane(State& S, unsigned opc, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (a.isC() && b.isC()) {
        uint64_t x = a.c, y = b.c;
        switch (opc) {
            case Instruction::Add: return mkC(x + y, w);
            case Instruction::Sub: return mkC(x - y, w);
            case Instruction::Mul: return mkC(x * y, w);
            case Instruction::And: return mkC(x & y, w);
            case Instruction::Or: return mkC(x | y, w);
            case Instruction::Xor: return mkC(x ^ y, w);
            case Instruction::Shl: if (y >= w) return mkV(X.sym("poison_shift", w, true)); return mkC(x << y, w);
            case Instruction::LShr: if (y >= w) return mkV(X.sym("poison_shift", w, true)); return mkC(x >> y, w);
            default: break;
        }
    }
    E x = toE(a), y = toE(b);
    switch (opc) {
        case Instruction::Add: return mkV(X.bin(OpAdd, x, y));
        case Instruction::Sub: return mkV(X.bin(OpSub, x, y));
        case Instruction::Mul: return mkV(X.bin(OpMul, x, y));
        case Instruction::UDiv: divCheck(S, b); return mkV(X.bin(OpUDiv, x, y));
        case Instruction::SDiv: divCheck(S, b); return mkV(X.bin(OpSDiv, x, y));
        case Instruction::URem: divCheck(S, b); return mkV(X.bin(OpURem, x, y));
        case Instruction::SRem: divCheck(S, b); return mkV(X.bin(OpSRem, x, y));
        case Instruction::And: return mkV(X.bin(OpAnd, x, y));
        case Instruction::Or: return mkV(X.bin(OpOr, x, y));
        case Instruction::Xor: return mkV(X.bin(OpXor, x, y));
        case Instruction::Shl: return mkV(X.bin(OpShl, x, y));
        case Instruction::LShr: return mkV(X.bin(OpLShr, x, y));
        case Instruction::AShr: return mkV(X.bin(OpAShr, x, y));
        case Instruction::FAdd: return mkV(X.fbin(OpFAdd, x, y));
        case Instruction::FSub: return mkV(X.fbin(OpFSub, x, y));
        case Instruction::FMul: return mkV(X.fbin(OpFMul, x, y));
        case Instruction::FDiv: return mkV(X.fbin(OpFDiv, x, y));
        case Instruction::FRem: return mkV(X.fbin(OpFRem, x, y));
        default: unsupported(S, "binop");
    }
}
static long double get80(const Val& q) { E e = toE(q); unsigned char b[16] = {0}; memcpy(b, &e->c, 8); memcpy(b + 8, &e->c2, 2); long double r; memcpy(&r, b, 16); return r; }
static Val put80(long double d) { unsigned char b[16] = {0}; memcpy(b, &d, 10); uint64_t lo; uint16_t hi; memcpy(&lo, b, 8); memcpy(&hi, b + 8, 2); return mkV(X.cst128(((u128)hi << 64) | lo, 80)); }
static Val binop(State& S, unsigned opc, Type* t, const Val& a, const Val& b) {
    if (t->isX86_FP80Ty()) {
        if (toE(a)->op != OpConst || toE(b)->op != OpConst) unsupported(S, "symbolic long double");
        long double x = get80(a), y = get80(b);
        switch (opc) { case Instruction::FAdd: return put80(x + y); case Instruction::FSub: return put80(x - y); case Instruction::FMul: return put80(x * y); case Instruction::FDiv: return put80(x / y); default: unsupported(S, "x87 op"); }
    }
    if (a.agg) { std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(binLane(S, opc, (*a.agg)[i], (*b.agg)[i])); return mkAgg(std::move(r)); }
    return binLane(S, opc, a, b);
}
static Val icmpLane(unsigned p, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (a.isC() && b.isC()) {
        uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w);
        switch (p) {
            case CmpInst::ICMP_EQ: return mkC(x == y, 1); case CmpInst::ICMP_NE: return mkC(x != y, 1);
            case CmpInst::ICMP_UGT: return mkC(x > y, 1); case CmpInst::ICMP_UGE: return mkC(x >= y, 1);
            case CmpInst::ICMP_ULT: return mkC(x < y, 1); case CmpInst::ICMP_ULE: return mkC(x <= y, 1);
            case CmpInst::ICMP_SGT: return mkC(sx > sy, 1); case CmpInst::ICMP_SGE: return mkC(sx >= sy, 1);
            case CmpInst::ICMP_SLT: return mkC(sx < sy, 1); case CmpInst::ICMP_SLE: return mkC(sx <= sy, 1);
        }
    }
    E x = toE(a), y = toE(b);
    switch (p) {
        case CmpInst::ICMP_EQ: return mkV(X.eq(x, y)); case CmpInst::ICMP_NE: return mkV(X.lnot(X.eq(x, y)));
        case CmpInst::ICMP_UGT: return mkV(X.bin(OpUlt, y, x)); case CmpInst::ICMP_UGE: return mkV(X.bin(OpUle, y, x));
        case CmpInst::ICMP_ULT: return mkV(X.bin(OpUlt, x, y)); case CmpInst::ICMP_ULE: return mkV(X.bin(OpUle, x, y));
        case CmpInst::ICMP_SGT: return mkV(X.bin(OpSlt, y, x)); case CmpInst::ICMP_SGE: return mkV(X.bin(OpSle, y, x));
        case CmpInst::ICMP_SLT: return mkV(X.bin(OpSlt, x, y)); case CmpInst::ICMP_SLE: return mkV(X.bin(OpSle, x, y));
    }
    abort();
}
// equality of integer-valued sums: normalise the difference polynomial first
static E feqNorm(E a, E b) {
    E i, j; int64_t al, ah, bl, bh;
    if (X.usePoly && (a->op == OpIntF || b->op == OpIntF) && X.asIntF(a, i, al, ah) && X.asIntF(b, j, bl, bh) && i != j) {
        std::map<std::pair<uint32_t, bool>, Poly> cache;
        Poly p = Poly::of(X, i, true, cache); p.add(Poly::of(X, j, true, cache), ~0ull);
        if (!p.overflow) { if (p.t.empty()) return X.tru(); return X.eq(p.toExpr(), X.cst(0, 64)); }
    }
    return X.feq(a, b);
}
static Val fcmpLane(unsigned p, const Val& a, const Val& b) {
    E x = toE(a), y = toE(b);
    if (p == CmpInst::FCMP_TRUE) return mkC(1, 1);
    if (p == CmpInst::FCMP_FALSE) return mkC(0, 1);
    E uno = X.lor(X.isNaN(x), X.isNaN(y));
    E r;
    switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = feqNorm(x, y); break;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = X.lnot(feqNorm(x, y)); break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = X.flt(x, y); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = X.flt(y, x); break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = X.lnot(X.flt(y, x)); break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = X.lnot(X.flt(x, y)); break;
        case CmpInst::FCMP_ORD: return mkV(X.lnot(uno));
        case CmpInst::FCMP_UNO: return mkV(uno);
        default: abort();
    }
    bool unordered = p == CmpInst::FCMP_UEQ || p == CmpInst::FCMP_UNE || p == CmpInst::FCMP_ULT || p == CmpInst::FCMP_UGT || p == CmpInst::FCMP_ULE || p == CmpInst::FCMP_UGE;
    return mkV(unordered ? X.lor(uno, r) : X.land(X.lnot(uno), r));
}
static Val selVal(E c, const Val& a, const Val& b) {
    if (a.agg) { std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(selVal(c, (*a.agg)[i], (*b.agg)[i])); return mkAgg(std::move(r)); }
    return mkV(X.ite(c, toE(a), toE(b)));
}

#include "exec.inc"
