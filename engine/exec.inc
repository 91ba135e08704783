// Instruction semantics, runtime model, scheduler and driver of symx (included by symx.cpp).
#include <functional>

typedef std::function<bool(State&, KInst&, std::vector<Val>&, Val&)> Handler; // false: do not advance
static std::vector<Handler> handlers;
static std::unordered_map<std::string, int> handlerIdx;
static std::unordered_map<std::string, int> typeId;
static std::map<uint64_t, int> tiIndex;

// ------------------------------------------------------------------------------ preparation
static KFunc* getKF(Function* F) {
    auto& k = KF[F];
    if (!k) { k.reset(new KFunc); k->F = F; k->dem = demangle(F->getName().str()); }
    return k.get();
}
static int constSlot(const Constant* C) {
    auto it = constIdx.find(C); if (it != constIdx.end()) return it->second;
    constTab.push_back(constVal(C));
    int r = -(int)constTab.size();
    constIdx[C] = r; return r;
}
static const int SLOT_NONE = INT_MIN;
static void prepare(KFunc* K) {
    if (K->ready) return;
    K->ready = true;
    Function* F = K->F;
    std::unordered_map<const Value*, int> slot;
    int n = 0;
    for (auto& a : F->args()) slot[&a] = n++;
    int bi = 0;
    for (auto& B : *F) { K->bbIdx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    K->nslots = n;
    auto op = [&](const Value* v) -> int {
        if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return SLOT_NONE;
        if (auto* c = dyn_cast<Constant>(v)) return constSlot(c);
        return slot.at(v);
    };
    K->phis.resize(bi);
    for (auto& B : *F) {
        int b = K->bbIdx[&B];
        K->bbStart.push_back(K->code.size());
        for (auto& I : B) {
            if (auto* p = dyn_cast<PHINode>(&I)) {
                std::set<int> done;
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
                    int pb = K->bbIdx[p->getIncomingBlock(i)];
                    if (!done.insert(pb).second) continue;
                    K->phis[b][pb].push_back({slot[p], op(p->getIncomingValue(i))});
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            KInst k; k.I = &I; k.opc = I.getOpcode(); k.dst = I.getType()->isVoidTy() ? SLOT_NONE : slot[&I]; k.w = 0; k.off = 0;
            if (I.getType()->isSized() && isScalar(I.getType())) k.w = typeBits(I.getType());
            if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                k.ops.push_back(op(g->getPointerOperand()));
                bool vec = g->getType()->isVectorTy();
                if (vec) { k.t0 = 1; }
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* idx = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) k.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else {
                        int64_t es = typeAlloc(it.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) k.off += ci->getSExtValue() * es;
                        else k.gep.push_back({op(idx), es});
                    }
                }
            } else if (auto* c = dyn_cast<CallBase>(&I)) {
                for (auto& a : c->args()) k.ops.push_back(op(a.get()));
                Value* cv = c->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                if (auto* cf = dyn_cast<Function>(cv)) { k.callee = cf; k.kcallee = getKF(cf); }
                else k.ops.push_back(op(c->getCalledOperand()));
            } else if (isa<SwitchInst>(&I)) {
                k.ops.push_back(op(I.getOperand(0)));
            } else if (auto* b2 = dyn_cast<BranchInst>(&I)) {
                if (b2->isConditional()) { k.ops.push_back(op(b2->getCondition())); k.t0 = K->bbIdx[b2->getSuccessor(0)]; k.t1 = K->bbIdx[b2->getSuccessor(1)]; }
                else k.t0 = K->bbIdx[b2->getSuccessor(0)];
            } else {
                for (auto& o : I.operands()) k.ops.push_back(op(o.get()));
            }
            K->code.push_back(std::move(k)); K->bbOf.push_back(b);
        }
    }
}
static inline const Val& opv(Frame& f, int s) { return s >= 0 ? f.r[s] : constTab[-s - 1]; }

// ------------------------------------------------------------------------------ frames
static void pushFrame(State& S, KFunc* K, std::vector<Val> args) {
    prepare(K);
    if (!K->touched) { K->touched = true; }
    Frame f; f.f = K; f.r.resize(K->nslots);
    size_t np = K->F->arg_size();
    for (size_t i = 0; i < np && i < args.size(); i++) {
        // byval copies
        if (K->F->hasParamAttribute(i, Attribute::ByVal)) {
            Type* t = K->F->getParamByValType(i); uint64_t sz = typeAlloc(t);
            uint64_t a = allocObj(S, sz, 1, 16, false, "byval");
            f.allocas.push_back(a);
            Val src = args[i]; copyBytes(S, mkC(a, 64), src, sz);
            f.r[i] = mkC(a, 64);
        } else f.r[i] = args[i];
    }
    if (K->F->isVarArg()) for (size_t i = np; i < args.size(); i++) f.varargs.push_back(args[i]);
    if (S.T().st.size() > 400) report(S, "stack", "call depth exceeded 400 frames", nullptr);
    S.T().st.push_back(std::move(f));
}
static void popFrame(State& S) {
    Frame& f = S.F();
    for (uint64_t a : f.allocas) { int oi = findObj(S, a); if (oi >= 0) freeObj(S, oi); }
    S.T().st.pop_back();
}
static void branchTo(State& S, int to) {
    Frame& f = S.F();
    int from = f.f->bbOf[f.pc];
    auto& ph = f.f->phis[to];
    if (!ph.empty()) {
        auto it = ph.find(from);
        if (it == ph.end()) { fprintf(stderr, "phi edge missing\n"); abort(); }
        auto& L = it->second;
        if (L.size() == 1) { Val v = opv(f, L[0].second); f.r[L[0].first] = v; }
        else { std::vector<Val> t; t.reserve(L.size()); for (auto& p : L) t.push_back(opv(f, p.second)); for (size_t i = 0; i < L.size(); i++) f.r[L[i].first] = t[i]; }
    }
    f.prevBB = from;
    f.pc = f.f->bbStart[to];
}
static void finishCall(State& S, const Val& ret) { // current frame's current instruction is the call
    Frame& f = S.F(); KInst& k = f.f->code[f.pc];
    if (k.dst != SLOT_NONE) f.r[k.dst] = ret;
    if (auto* iv = dyn_cast<InvokeInst>(k.I)) branchTo(S, f.f->bbIdx[iv->getNormalDest()]);
    else f.pc++;
}

// ------------------------------------------------------------------------------ vector clocks
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcTick(State& S) { auto& v = S.T().vc; if ((int)v.size() <= S.cur) v.resize(S.cur + 1, 0); v[S.cur]++; }
static bool ordRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool ordAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static void raceAccess(State& S, uint64_t a, uint64_t n, bool write) {
    if (!optRace || S.th.size() < 2) return;
    int oi = findObj(S, a); if (oi < 0) return;
    Obj* o = S.mem[oi].p;
    if (o->ro || (o->kind == 0 && false)) return;
    auto& vc = S.T().vc;
    for (uint64_t i = 0; i < n; i++) {
        auto& r = S.shadow[a + i];
        auto le = [&](uint32_t t, uint32_t c) { return t < vc.size() && vc[t] >= c; };
        if (r.wc && (int)r.wt != S.cur && !le(r.wt, r.wc)) report(S, "race", std::string("data race: ") + (write ? "write" : "read") + " concurrent with a write by another thread", nullptr);
        if (write) { for (uint32_t t = 0; t < r.rc.size(); t++) if ((int)t != S.cur && r.rc[t] && !le(t, r.rc[t])) report(S, "race", "data race: write concurrent with a read by another thread", nullptr); }
        uint32_t my = (int)vc.size() > S.cur ? vc[S.cur] : 0; if (!my) my = 1;
        if (write) { r.wt = S.cur; r.wc = my; r.rc.clear(); }
        else { if ((int)r.rc.size() <= S.cur) r.rc.resize(S.cur + 1, 0); r.rc[S.cur] = my; }
    }
}
static void raceFree(State& S, uint64_t a, uint64_t n) { if (optRace && S.th.size() > 1) { raceAccess(S, a, n, true); auto it = S.shadow.lower_bound(a); while (it != S.shadow.end() && it->first < a + n) it = S.shadow.erase(it); } }

// ------------------------------------------------------------------------------ scheduler
static bool runnable(State& S, int t) { auto& T = S.th[t]; return T.status == TRun || (T.status == TYield && S.epoch > T.yieldEpoch); }
static std::string schedName(State& S, int t) { (void)S; return "T" + std::to_string(t); }
static void switchTo(State& S, int t, bool skip) {
    S.cur = t; auto& T = S.th[t]; T.status = TRun; if (skip) T.skipSched = true;
    if (S.sched.size() < 400) {
        Instruction* I = nullptr; if (!T.st.empty()) { auto& f = T.st.back(); if (f.pc < f.f->code.size()) I = f.f->code[f.pc].I; }
        S.sched.push_back(schedName(S, t) + "@" + locOf(I)); }
}
// Called before a synchronisation operation: explore preemptions.
static void schedPoint(State& S) {
    if (S.th.size() < 2) return;
    if (S.T().skipSched) { S.T().skipSched = false; return; }
    if (S.preempt >= optPreempt) return;
    for (int t = 0; t < (int)S.th.size(); t++) if (t != S.cur && runnable(S, t)) {
        State* n = cloneState(S); n->preempt++; switchTo(*n, t, true); work.push_back(n);
    }
}
// Current thread cannot continue: pick another (all choices explored).
static void pickNext(State& S) {
    std::vector<int> r;
    for (int t = 0; t < (int)S.th.size(); t++) if (runnable(S, t)) r.push_back(t);
    if (r.empty()) {
        for (int t = 0; t < (int)S.th.size(); t++) if (S.th[t].status == TYield) r.push_back(t);
        if (!r.empty() && ++S.idleYields <= optIdleMax) { // let the spinners proceed round-robin
            int t = r[S.idleYields % r.size()]; switchTo(S, t, true); return; }
        std::string m = r.empty() ? "deadlock: every thread is blocked" : "livelock: threads spin with nothing left to change";
        for (int t = 0; t < (int)S.th.size(); t++) if (S.th[t].status != TDone) { S.cur = t; break; }
        report(S, "deadlock", m, nullptr);
    }
    S.idleYields = 0;
    for (size_t i = 1; i < r.size(); i++) { State* n = cloneState(S); switchTo(*n, r[i], true); work.push_back(n); }
    switchTo(S, r[0], true);
}
static void wakeMutex(State& S, uint64_t a) { S.epoch++; for (auto& T : S.th) if ((T.status == TBlockMutex || T.status == TBlockRd) && T.waitA == a) T.status = TRun; }

// ------------------------------------------------------------------------------ exceptions
static uint64_t rdPtr(State& S, uint64_t a) { Val v = readMem(S, mkC(a, 64), 8); return v.isC() ? v.c : 0; }
static std::string gvName(uint64_t a) { auto it = addrGV.find(a); return it == addrGV.end() ? "" : it->second->getName().str(); }
static bool tiMatches(uint64_t thrown, uint64_t want, int64_t& adj, int depth = 0) {
    if (thrown == want) return true;
    if (depth > 8) return false;
    auto it = addrGV.find(thrown); if (it == addrGV.end()) return false;
    auto* gv = dyn_cast<GlobalVariable>(it->second);
    std::string nm = it->second->getName().str();
    if (!gv || !gv->hasInitializer()) {
        static const std::map<std::string, std::string> base = {
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
            {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
            {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
            {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"}, {"_ZTIN3fmt2v912format_errorE", "_ZTISt13runtime_error"}};
        auto b = base.find(nm); if (b == base.end()) return false;
        auto* g = MOD->getNamedGlobal(b->second); if (!g || !gaddr.count(g)) return false;
        return tiMatches(gaddr[g], want, adj, depth + 1);
    }
    auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer()); if (!cs) return false;
    for (unsigned i = 2; i < cs->getNumOperands(); i++) {
        if (!cs->getOperand(i)->getType()->isPointerTy()) continue;
        Val b = constVal(cs->getOperand(i));
        if (b.c && addrGV.count(b.c) && addrGV[b.c]->getName().starts_with("_ZTI")) {
            int64_t o = 0;
            if (cs->getNumOperands() > 3 && i + 1 < cs->getNumOperands()) if (auto* ci = dyn_cast<ConstantInt>(cs->getOperand(i + 1))) o = ci->getSExtValue() >> 8;
            int64_t a2 = adj + o;
            if (tiMatches(b.c, want, a2, depth + 1)) { adj = a2; return true; }
        }
    }
    return false;
}
static int tiIdx(uint64_t a) { auto it = tiIndex.find(a); if (it != tiIndex.end()) return it->second; int n = tiIndex.size() + 1; tiIndex[a] = n; return n; }
static void uncaught(State& S, uint64_t exc, const std::vector<std::string>& stk) {
    std::string nm = demangle(gvName(S.excs[exc].ti));
    (void)stk;
    report(S, "exception", "uncaught exception: " + nm, nullptr);
}
static void unwindFrom(State& S, uint64_t exc) { // top frame is at the throwing call
    std::vector<std::string> stk = stackOf(S);
    uint64_t ti = S.excs[exc].ti;
    // search phase: is there a handler at all?
    auto clauseSel = [&](LandingPadInst* lp, bool& handler, int64_t& adj) -> int {
        handler = false;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (lp->isCatch(i)) {
                Val t = constVal(lp->getClause(i));
                if (t.c == 0) { handler = true; return tiIdx(0); }
                int64_t a = 0; if (tiMatches(ti, t.c, a)) { handler = true; adj = a; return tiIdx(t.c); }
            } else {
                Constant* c = lp->getClause(i); bool in = false;
                if (auto* ca = dyn_cast<ConstantArray>(c)) for (auto& o : ca->operands()) { Val t = constVal(cast<Constant>(o.get())); int64_t a = 0; if (tiMatches(ti, t.c, a)) in = true; }
                if (!in) { handler = true; return -1; }
            }
        }
        return 0;
    };
    auto& st = S.T().st;
    bool found = false; int64_t adj = 0;
    for (int i = (int)st.size() - 1; i >= 0 && !found; i--) {
        auto* iv = dyn_cast<InvokeInst>(st[i].f->code[st[i].pc].I);
        if (!iv) continue;
        bool h; clauseSel(iv->getLandingPadInst(), h, adj); if (h) found = true;
    }
    if (!found) uncaught(S, exc, stk);
    while (!st.empty()) {
        Frame& f = st.back();
        if (auto* iv = dyn_cast<InvokeInst>(f.f->code[f.pc].I)) {
            LandingPadInst* lp = iv->getLandingPadInst(); bool h; adj = 0;
            int sel = clauseSel(lp, h, adj);
            if (h || lp->isCleanup()) {
                branchTo(S, f.f->bbIdx[iv->getUnwindDest()]);
                KInst& k = f.f->code[f.pc];
                if (!isa<LandingPadInst>(k.I)) { fprintf(stderr, "no landingpad\n"); abort(); }
                S.excs[exc].obj = exc + adj;
                f.r[k.dst] = mkAgg({mkC(exc, 64), mkC((uint32_t)sel, 32)});
                f.pc++;
                return;
            }
        }
        popFrame(S);
    }
    uncaught(S, exc, stk);
}
static void dropExc(State& S, uint64_t e) {
    auto it = S.excs.find(e); if (it == S.excs.end()) return;
    if (--it->second.refs <= 0) { int oi = findObj(S, e); if (oi >= 0) freeObj(S, oi); S.excs.erase(it); }
}

// ------------------------------------------------------------------------------ heap helpers
static Val doAlloc(State& S, Val size, uint8_t kind, uint64_t align, bool zero) {
    uint64_t n = concretize(S, size, "allocation size");
    if (n > (1ull << 32)) report(S, "memory", "allocation of " + std::to_string(n) + " bytes", nullptr);
    return mkC(allocObj(S, n, kind, align, zero, ""), 64);
}
static void doFree(State& S, Val p, uint8_t kind, const Val* size) {
    uint64_t a = concretize(S, p);
    if (!a) return;
    int oi = findObj(S, a);
    if (oi < 0 || S.mem[oi].p->base != a) report(S, "memory", "free of an invalid pointer: " + objDesc(S, a), nullptr);
    Obj* o = S.mem[oi].p;
    if (o->kind < 2 || o->kind > 4) report(S, "memory", "free of a non-heap object", nullptr);
    if (kind && o->kind != kind && !(kind >= 3 && o->kind >= 3)) report(S, "memory", "allocation and deallocation functions do not match", nullptr);
    if (size) { Val sz = *size; uint64_t n = concretize(S, sz); if (n != o->vsize) report(S, "memory", "sized deallocation of " + std::to_string(n) + " bytes for a block of " + std::to_string(o->vsize), nullptr); }
    raceFree(S, a, S.mem[oi].p->size);
    oi = findObj(S, a);
    freeObj(S, oi);
}

// ------------------------------------------------------------------------------ lanes
template <class Fn> static Val map1(const Val& a, Fn f) { if (!a.agg) return f(a); std::vector<Val> r; for (auto& x : *a.agg) r.push_back(f(x)); return mkAgg(std::move(r)); }
template <class Fn> static Val map2(const Val& a, const Val& b, Fn f) { if (!a.agg) return f(a, b); std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(f((*a.agg)[i], b.agg ? (*b.agg)[i] : b)); return mkAgg(std::move(r)); }
template <class Fn> static Val map3(const Val& a, const Val& b, const Val& c, Fn f) { if (!a.agg) return f(a, b, c); std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(f((*a.agg)[i], (*b.agg)[i], (*c.agg)[i])); return mkAgg(std::move(r)); }

static E popcnt(E e) { E r = X.cst(0, e->w); for (unsigned i = 0; i < e->w; i++) r = X.bin(OpAdd, r, X.zext(X.extract(e, i, 1), e->w)); return r; }

// returns true if handled, result in ret; may push frames? no.
static bool intrinsic(State& S, KInst& k, Intrinsic::ID id, std::vector<Val>& a, Val& ret) {
    Type* rt = k.I->getType();
    switch (id) {
        case Intrinsic::lifetime_start: {
            Val p = a[1]; if (p.isC()) { int oi = findObj(S, p.c); if (oi >= 0 && S.mem[oi].p->kind == 1) { Obj* o = wr(S, oi); o->init.assign(o->size, 0); o->s.clear(); } }
            return true; }
        case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::stackrestore: case Intrinsic::clear_cache: case Intrinsic::pseudoprobe: return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: ret = mkC(0, 64); return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::arithmetic_fence: ret = a[0]; return true;
        case Intrinsic::threadlocal_address: {
            if (S.cur == 0) { ret = a[0]; return true; }
            auto* gv = dyn_cast<GlobalVariable>(k.I->getOperand(0)); if (!gv || !gv->hasInitializer() || !gv->getInitializer()->isNullValue()) unsupported(S, "thread-local variable with a non-zero initial value");
            auto& t = S.T().tls; auto it = t.find(gv); if (it == t.end()) { uint64_t n = allocObj(S, S.mem[findObj(S, a[0].c)].p->size, 0, 16, true, "thread_local"); it = S.T().tls.emplace(gv, n).first; }
            ret = mkC(it->second, 64); return true; }
        case Intrinsic::objectsize: ret = mkC(a[1].c ? 0 : ~0ull, k.w); return true;
        case Intrinsic::is_constant: ret = mkC(0, 1); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            uint64_t n = concretize(S, a[2], "copy size");
            if (n) {
                uint64_t d = concretize(S, a[0], "address"), s = concretize(S, a[1], "address");
                raceAccess(S, s, n, false); raceAccess(S, d, n, true);
                if (id == Intrinsic::memcpy && s != d && s < d + n && d < s + n) report(S, "memory", "memcpy with overlapping ranges", nullptr);
                copyBytes(S, a[0], a[1], n);
            }
            return true; }
        case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(S, a[2], "fill size"); if (n) { uint64_t d = concretize(S, a[0], "address"); raceAccess(S, d, n, true); setBytes(S, a[0], a[1], n); } return true; }
        case Intrinsic::umin: ret = map2(a[0], a[1], [](const Val& x, const Val& y) { if (x.isC() && y.isC()) return mkC(std::min(x.c, y.c), x.w); return mkV(X.ite(X.bin(OpUlt, toE(x), toE(y)), toE(x), toE(y))); }); return true;
        case Intrinsic::umax: ret = map2(a[0], a[1], [](const Val& x, const Val& y) { if (x.isC() && y.isC()) return mkC(std::max(x.c, y.c), x.w); return mkV(X.ite(X.bin(OpUlt, toE(x), toE(y)), toE(y), toE(x))); }); return true;
        case Intrinsic::smin: ret = map2(a[0], a[1], [](const Val& x, const Val& y) { return mkV(X.ite(X.bin(OpSlt, toE(x), toE(y)), toE(x), toE(y))); }); return true;
        case Intrinsic::smax: ret = map2(a[0], a[1], [](const Val& x, const Val& y) { return mkV(X.ite(X.bin(OpSlt, toE(x), toE(y)), toE(y), toE(x))); }); return true;
        case Intrinsic::abs: ret = map1(a[0], [](const Val& x) { E e = toE(x); return mkV(X.ite(X.bin(OpSlt, e, X.cst(0, e->w)), X.neg(e), e)); }); return true;
        case Intrinsic::ctpop: ret = map1(a[0], [](const Val& x) { if (x.isC()) return mkC(__builtin_popcountll(x.c), x.w); return mkV(popcnt(toE(x))); }); return true;
        case Intrinsic::ctlz: ret = map1(a[0], [](const Val& x) { if (x.isC()) return mkC(x.c ? __builtin_clzll(x.c) - (64 - x.w) : x.w, x.w);
            E e = toE(x), r = X.cst(e->w, e->w); for (unsigned i = 0; i < e->w; i++) r = X.ite(X.eq(X.extract(e, i, 1), X.tru()), X.cst(e->w - 1 - i, e->w), r); return mkV(r); }); return true;
        case Intrinsic::cttz: ret = map1(a[0], [](const Val& x) { if (x.isC()) return mkC(x.c ? __builtin_ctzll(x.c) : x.w, x.w);
            E e = toE(x), r = X.cst(e->w, e->w); for (int i = e->w - 1; i >= 0; i--) r = X.ite(X.eq(X.extract(e, i, 1), X.tru()), X.cst(i, e->w), r); return mkV(r); }); return true;
        case Intrinsic::bswap: ret = map1(a[0], [](const Val& x) { E e = toE(x), r = nullptr; for (unsigned i = 0; i < e->w; i += 8) { E b = X.extract(e, i, 8); r = r ? X.concat(r, b) : b; } return mkV(r); }); return true;
        case Intrinsic::bitreverse: ret = map1(a[0], [](const Val& x) { E e = toE(x), r = nullptr; for (unsigned i = 0; i < e->w; i++) { E b = X.extract(e, i, 1); r = r ? X.concat(r, b) : b; } return mkV(r); }); return true;
        case Intrinsic::fshl: case Intrinsic::fshr: ret = map3(a[0], a[1], a[2], [&](const Val& x, const Val& y, const Val& z) {
            unsigned w = x.w; E c = X.concat(toE(x), toE(y)); E sh = X.zext(X.bin(OpURem, toE(z), X.cst(w, w)), 2 * w);
            if (id == Intrinsic::fshl) return mkV(X.extract(X.bin(OpShl, c, sh), w, w)); return mkV(X.extract(X.bin(OpLShr, c, sh), 0, w)); }); return true;
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned w = a[0].w; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow; unsigned w2 = mul ? 2 * w : w + 1;
            E x = sg ? X.sext(toE(a[0]), w2) : X.zext(toE(a[0]), w2), y = sg ? X.sext(toE(a[1]), w2) : X.zext(toE(a[1]), w2);
            Op op = mul ? OpMul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OpAdd : OpSub;
            E r = X.bin(op, x, y); E lo = X.extract(r, 0, w); E back = sg ? X.sext(lo, w2) : X.zext(lo, w2);
            ret = mkAgg({mkV(lo), mkV(X.lnot(X.eq(back, r)))}); return true; }
        case Intrinsic::usub_sat: ret = map2(a[0], a[1], [](const Val& x, const Val& y) { return mkV(X.ite(X.bin(OpUlt, toE(x), toE(y)), X.cst(0, x.w), X.bin(OpSub, toE(x), toE(y)))); }); return true;
        case Intrinsic::uadd_sat: ret = map2(a[0], a[1], [](const Val& x, const Val& y) { E r = X.bin(OpAdd, toE(x), toE(y)); return mkV(X.ite(X.bin(OpUlt, r, toE(x)), X.cst(~0ull, x.w), r)); }); return true;
        case Intrinsic::fabs: ret = map1(a[0], [](const Val& x) { return mkV(X.fabs_(toE(x))); }); return true;
        case Intrinsic::sqrt: ret = map1(a[0], [](const Val& x) { return mkV(X.fsqrt(toE(x))); }); return true;
        case Intrinsic::floor: ret = map1(a[0], [](const Val& x) { return mkV(X.fround(toE(x), 0)); }); return true;
        case Intrinsic::ceil: ret = map1(a[0], [](const Val& x) { return mkV(X.fround(toE(x), 1)); }); return true;
        case Intrinsic::trunc: ret = map1(a[0], [](const Val& x) { return mkV(X.fround(toE(x), 2)); }); return true;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = map1(a[0], [](const Val& x) { return mkV(X.fround(toE(x), 3)); }); return true;
        case Intrinsic::round: ret = map1(a[0], [](const Val& x) { return mkV(X.fround(toE(x), 4)); }); return true;
        case Intrinsic::fma: ret = map3(a[0], a[1], a[2], [](const Val& x, const Val& y, const Val& z) { return mkV(X.fma(toE(x), toE(y), toE(z))); }); return true;
        case Intrinsic::fmuladd: ret = map3(a[0], a[1], a[2], [](const Val& x, const Val& y, const Val& z) { return mkV(X.fbin(OpFAdd, X.fbin(OpFMul, toE(x), toE(y)), toE(z))); }); return true;
        case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: ret = map2(a[0], a[1], [&](const Val& x, const Val& y) { E p = toE(x), q = toE(y);
            bool mn = id == Intrinsic::minnum || id == Intrinsic::minimum; E r = X.ite(mn ? X.flt(q, p) : X.flt(p, q), q, p); return mkV(X.ite(X.isNaN(p), q, X.ite(X.isNaN(q), p, r))); }); return true;
        case Intrinsic::copysign: ret = map2(a[0], a[1], [](const Val& x, const Val& y) { E p = X.unIntF(toE(x)), q = X.unIntF(toE(y)); unsigned w = p->w; return mkV(X.concat(X.extract(q, w - 1, 1), X.extract(p, 0, w - 1))); }); return true;
        case Intrinsic::is_fpclass: { uint64_t m = a[1].c; E e = toE(a[0]); unsigned w = e->w; uint64_t inf = w == 64 ? 0x7ff0000000000000ull : w == 32 ? 0x7f800000ull : 0x7c00ull;
            if (e->op == OpIntF) { E r = X.fls(); if (m & 0x108) r = X.lor(r, X.land(X.tru(), X.fls())); E z = X.eq(e->k[0], X.cst(0, 64)), n = X.bin(OpSlt, e->k[0], X.cst(0, 64)); if (m & 0x60) r = X.lor(r, z); if (m & 0x8) r = X.lor(r, n); if (m & 0x100) r = X.lor(r, X.land(X.lnot(z), X.lnot(n))); ret = mkV(r); return true; }
            E mag = X.extract(e, 0, w - 1), sg = X.extract(e, w - 1, 1); E r = X.fls(); uint64_t mant = w == 64 ? 0x000fffffffffffffull : w == 32 ? 0x7fffffull : 0x3ffull;
            E nan = X.bin(OpUlt, X.cst(inf, w - 1), mag), isinf = X.eq(mag, X.cst(inf, w - 1)), zero = X.eq(mag, X.cst(0, w - 1)), sub = X.land(X.lnot(zero), X.bin(OpUle, mag, X.cst(mant, w - 1)));
            E norm = X.land(X.lnot(nan), X.land(X.lnot(isinf), X.land(X.lnot(zero), X.lnot(sub)))); E quiet = X.eq(X.extract(e, w == 64 ? 51 : w == 32 ? 22 : 9, 1), X.tru());
            if (m & 1) r = X.lor(r, X.land(nan, X.lnot(quiet))); if (m & 2) r = X.lor(r, X.land(nan, quiet)); if (m & 4) r = X.lor(r, X.land(isinf, sg)); if (m & 8) r = X.lor(r, X.land(norm, sg)); if (m & 16) r = X.lor(r, X.land(sub, sg));
            if (m & 32) r = X.lor(r, X.land(zero, sg)); if (m & 64) r = X.lor(r, X.land(zero, X.lnot(sg))); if (m & 128) r = X.lor(r, X.land(sub, X.lnot(sg))); if (m & 256) r = X.lor(r, X.land(norm, X.lnot(sg))); if (m & 512) r = X.lor(r, X.land(isinf, X.lnot(sg)));
            ret = mkV(r); return true; }
        case Intrinsic::eh_typeid_for: ret = mkC(tiIdx(a[0].c), 32); return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: report(S, "trap", "trap reached", nullptr); return true;
        case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: { E r = toE(a[0]); for (auto& x : *a[1].agg) r = X.fbin(id == Intrinsic::vector_reduce_fadd ? OpFAdd : OpFMul, r, toE(x)); ret = mkV(r); return true; }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
            Op op = id == Intrinsic::vector_reduce_add ? OpAdd : id == Intrinsic::vector_reduce_mul ? OpMul : id == Intrinsic::vector_reduce_and ? OpAnd : id == Intrinsic::vector_reduce_or ? OpOr : OpXor;
            E r = nullptr; for (auto& x : *a[0].agg) r = r ? X.bin(op, r, toE(x)) : toE(x); ret = mkV(r); return true; }
        case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_smax: {
            E r = nullptr; for (auto& x : *a[0].agg) { E e = toE(x); if (!r) { r = e; continue; } bool u = id == Intrinsic::vector_reduce_umin || id == Intrinsic::vector_reduce_umax; bool mn = id == Intrinsic::vector_reduce_umin || id == Intrinsic::vector_reduce_smin; E lt = X.bin(u ? OpUlt : OpSlt, e, r); r = mn ? X.ite(lt, e, r) : X.ite(lt, r, e); } ret = mkV(r); return true; }
        case Intrinsic::x86_avx_ldu_dq_256: case Intrinsic::x86_sse3_ldu_dq: {
            unsigned n = cast<FixedVectorType>(rt)->getNumElements(); uint64_t base = concretize(S, a[0], "address"); raceAccess(S, base, n, false);
            std::vector<Val> r; for (unsigned i = 0; i < n; i++) r.push_back(readMem(S, mkC(base + i, 64), 1));
            ret = mkAgg(std::move(r)); return true; }
        case Intrinsic::masked_load: {
            auto* vt = cast<FixedVectorType>(rt); unsigned eb = typeBits(vt->getElementType()) / 8; uint64_t base = concretize(S, a[0], "address");
            std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) { Val m = (*a[2].agg)[i]; bool on; if (m.isC()) on = m.c; else on = decide(S, toE(m)); if (on) { raceAccess(S, base + i * eb, eb, false); r.push_back(readMem(S, mkC(base + i * eb, 64), eb)); } else r.push_back((*a[3].agg)[i]); }
            ret = mkAgg(std::move(r)); return true; }
        case Intrinsic::masked_store: {
            auto* vt = cast<FixedVectorType>(cast<CallBase>(k.I)->getArgOperand(0)->getType()); unsigned eb = typeBits(vt->getElementType()) / 8; uint64_t base = concretize(S, a[1], "address");
            std::vector<bool> on; for (unsigned i = 0; i < vt->getNumElements(); i++) { Val m = (*a[3].agg)[i]; on.push_back(m.isC() ? m.c : decide(S, toE(m))); }
            for (unsigned i = 0; i < vt->getNumElements(); i++) if (on[i]) writeMem(S, mkC(base + i * eb, 64), eb, (*a[0].agg)[i]);
            return true; }
        case Intrinsic::x86_avx512_vpdpwssd_512: case Intrinsic::x86_avx512_vpdpwssd_256: case Intrinsic::x86_avx512_vpdpwssd_128: {
            // lanes: acc i32 + sum of 2 products of i16 pairs. Operands b, c are vectors of i32.
            ret = map3(a[0], a[1], a[2], [](const Val& acc, const Val& x, const Val& y) {
                E p = toE(x), q = toE(y); E s = toE(acc);
                for (int i = 0; i < 2; i++) s = X.bin(OpAdd, s, X.bin(OpMul, X.sext(X.extract(p, 16 * i, 16), 32), X.sext(X.extract(q, 16 * i, 16), 32)));
                return mkV(s); });
            return true; }
        case Intrinsic::x86_avx512_vpdpbusd_512: case Intrinsic::x86_avx512_vpdpbusd_256: {
            ret = map3(a[0], a[1], a[2], [](const Val& acc, const Val& x, const Val& y) { E p = toE(x), q = toE(y); E s = toE(acc);
                for (int i = 0; i < 4; i++) s = X.bin(OpAdd, s, X.bin(OpMul, X.zext(X.extract(p, 8 * i, 8), 32), X.sext(X.extract(q, 8 * i, 8), 32))); return mkV(s); });
            return true; }
        case Intrinsic::x86_avx512_mask_vcvtph2ps_512: case Intrinsic::x86_avx512_sitofp_round: case Intrinsic::x86_avx512_uitofp_round: {
            auto* vt = cast<FixedVectorType>(rt); std::vector<Val> r;
            for (unsigned i = 0; i < vt->getNumElements(); i++) { E e = toE((*a[0].agg)[i]);
                if (id == Intrinsic::x86_avx512_mask_vcvtph2ps_512) r.push_back(mkV(X.fext(e, 32))); else r.push_back(mkV(X.intToF(e, typeBits(vt->getElementType()), id == Intrinsic::x86_avx512_sitofp_round))); }
            ret = mkAgg(std::move(r)); return true; }
        case Intrinsic::x86_vcvtps2ph_128: case Intrinsic::x86_vcvtps2ph_256: {
            std::vector<Val> r; int mode = (a[1].isC() && !(a[1].c & 4)) ? (int)(a[1].c & 3) : 0; // 0 nearest even, 1 down, 2 up, 3 toward zero
            for (auto& x : *a[0].agg) { E e = toE(x), h = X.ftrunc(e, 16);
                if (mode) { // correct the nearest value by one step where it lies on the wrong side
                    E back = X.fext(h, 32), neg = X.extract(h, 15, 1);
                    E over = mode == 1 ? X.flt(e, back) : mode == 2 ? X.flt(back, e) : X.flt(X.fabs_(e), X.fabs_(back));
                    E inc = mode == 1 ? neg : mode == 2 ? X.lnot(neg) : X.fls();
                    E one = X.cst(1, 16); h = X.ite(X.land(over, X.lnot(X.lor(X.isNaN(e), X.isNaN(h)))), X.ite(inc, X.bin(OpAdd, h, one), X.bin(OpSub, h, one)), h); }
                r.push_back(mkV(h)); } while (r.size() < cast<FixedVectorType>(rt)->getNumElements()) r.push_back(mkC(0, 16)); ret = mkAgg(std::move(r)); return true; }
        case Intrinsic::x86_sse2_pause: return false; // scheduler
        case Intrinsic::x86_rdtsc: ret = mkC(S.clockNs += 1000, 64); return true;
        case Intrinsic::vastart: {
            Frame& f = S.F(); // registers area exhausted: put everything in the overflow area
            uint64_t n = f.varargs.size() * 8; uint64_t ar = allocObj(S, n ? n : 8, 1, 16, false, "varargs"); S.F().allocas.push_back(ar);
            for (size_t i = 0; i < S.F().varargs.size(); i++) writeMem(S, mkC(ar + 8 * i, 64), 8, mkV(X.zext(toE(S.F().varargs[i]), 64)));
            uint64_t p = concretize(S, a[0]); writeMem(S, mkC(p, 64), 4, mkC(48, 32)); writeMem(S, mkC(p + 4, 64), 4, mkC(304, 32)); writeMem(S, mkC(p + 8, 64), 8, mkC(ar, 64)); writeMem(S, mkC(p + 16, 64), 8, mkC(0, 64));
            return true; }
        case Intrinsic::vaend: return true;
        case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: {
            for (auto& x : a) if (!x.isC()) unsupported(S, "symbolic transcendental");
            double x = ExprCtx::fval(a[0].c, a[0].w), r = 0; if (id == Intrinsic::pow) r = pow(x, ExprCtx::fval(a[1].c, a[1].w)); else if (id == Intrinsic::exp) r = exp(x); else if (id == Intrinsic::log) r = log(x); else if (id == Intrinsic::log2) r = log2(x); else if (id == Intrinsic::exp2) r = exp2(x); else if (id == Intrinsic::log10) r = log10(x); else if (id == Intrinsic::sin) r = sin(x); else r = cos(x);
            ret = mkV(X.fconst(r, a[0].w)); return true; }
        default: unsupported(S, "intrinsic " + Intrinsic::getBaseName(id).str());
    }
    return true;
}

// ------------------------------------------------------------------------------ handlers
static void H(const char* names, Handler h) {
    handlers.push_back(h); int id = handlers.size() - 1;
    std::string s = names; size_t p = 0;
    while (p < s.size()) { size_t q = s.find(' ', p); if (q == std::string::npos) q = s.size(); if (q > p) handlerIdx[s.substr(p, q - p)] = id; p = q + 1; }
}
static void pathDone(State& S, const std::string& end);
static void endThread(State& S) {
    S.T().status = TDone; S.epoch++;
    if (S.cur == 0) { pathDone(S, "done"); }
    for (auto& T : S.th) if (T.status == TBlockJoin && T.waitA == (uint64_t)S.cur) T.status = TRun;
    pickNext(S);
}
static void doThrow(State& S, uint64_t e) { unwindFrom(S, e); }
static bool lockMutex(State& S, uint64_t a, bool wait, Val& ret) {
    schedPoint(S);
    auto& m = S.mtx[a];
    if (m.owner >= 0 || m.readers > 0) {
        if (!wait) { ret = mkC(16, 32); return true; }
        if (m.owner == S.cur) report(S, "deadlock", "mutex locked twice by the same thread", nullptr);
        S.T().status = TBlockMutex; S.T().waitA = a; pickNext(S); return false;
    }
    m.owner = S.cur; vcJoin(S.T().vc, m.vc); ret = mkC(0, 32); return true;
}
static void unlockMutex(State& S, uint64_t a) {
    auto& m = S.mtx[a];
    if (m.owner != S.cur && m.readers == 0) report(S, "mutex", "unlock of a mutex not held by this thread", nullptr);
    if (m.owner == S.cur) { m.owner = -1; vcJoin(m.vc, S.T().vc); }
    else if (m.readers) { m.readers--; vcJoin(m.vc, S.T().vc); }
    vcTick(S); wakeMutex(S, a);
}
static bool memcmpH(State& S, std::vector<Val>& a, Val& ret) {
    uint64_t n = concretize(S, a[2]); E r = X.cst(0, 32);
    uint64_t p = n ? concretize(S, a[0]) : 0, q = n ? concretize(S, a[1]) : 0;
    for (uint64_t i = n; i-- > 0;) { E x = toE(readMem(S, mkC(p + i, 64), 1)), y = toE(readMem(S, mkC(q + i, 64), 1)); r = X.ite(X.eq(x, y), r, X.bin(OpSub, X.zext(x, 32), X.zext(y, 32))); }
    ret = mkV(r); return true;
}
static E smallInt(State& S, int64_t lo, int64_t hi, const std::string& nm, unsigned w) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned k = 1; while (k < 64 && (span >> k)) k++;
    E e = X.sym(nm, k); E z = X.zext(e, 64);
    E v = lo ? X.bin(OpAdd, z, X.cst((uint64_t)lo, 64)) : z;
    S.inputs.push_back({nm, w < 64 ? X.extract(v, 0, w) : v});
    if (k < 64 && span != ((1ull << k) - 1)) if (!addC(S, X.bin(OpUle, e, X.cst(span, k)))) killPath();
    return v;
}
static void setupHandlers() {
    // --- harness API
    H("symx_symbolic", [](State& S, KInst&, std::vector<Val>& a, Val&) {
        uint64_t p = concretize(S, a[0]), n = concretize(S, a[1]); std::string nm = readStr(S, a[2]);
        if (n == 1 || n == 2 || n == 4 || n == 8) { E e = X.sym(nm, n * 8); S.inputs.push_back({nm, e}); writeMem(S, mkC(p, 64), n, mkV(e)); }
        else for (uint64_t i = 0; i < n; i++) { std::string m = nm + "[" + std::to_string(i) + "]"; E e = X.sym(m, 8); S.inputs.push_back({m, e}); writeMem(S, mkC(p + i, 64), 1, mkV(e)); }
        return true; });
    H("symx_assume", [](State& S, KInst&, std::vector<Val>& a, Val&) {
        E c = toE(a[0]); if (c->w != 1) c = X.lnot(X.eq(c, X.cst(0, c->w)));
        if (!addC(S, c)) { nKilledAssume++; killPath(); } return true; });
    H("symx_assert", [](State& S, KInst&, std::vector<Val>& a, Val&) {
        E c = toE(a[0]); if (c->w != 1) c = X.lnot(X.eq(c, X.cst(0, c->w)));
        nAsserts++; if (c->op != OpConst) nAssertsSymbolic++;
        if (c->op != OpConst && getenv("SYMX_DUMP")) fprintf(stderr, "ASSERT %s\n", Z3_ast_to_string(X.z3, X.toZ3(c)));
        checkTaint(S, c, "asserted condition");
        ModelP m; int r = mustHold(S, c, &m);
        if (r == 0) { std::string msg = readStr(S, a[1]); report(S, "assert", msg, m, c->op == OpConst); if (!addC(S, c)) killPath(); }
        else if (r < 0) { nUndecided++; incomplete = true; incompleteWhy = "solver timeout on an assertion"; }
        return true; });
    H("symx_reach", [](State& S, KInst&, std::vector<Val>& a, Val&) { reachCount[readStr(S, a[0])]++; return true; });
    H("symx_choose", [](State& S, KInst& k, std::vector<Val>& a, Val& ret) {
        uint64_t n = concretize(S, a[0]); std::string nm = readStr(S, a[1]);
        for (uint64_t i = n; i-- > 1;) { State* q = cloneState(S); q->inputs.push_back({nm, X.cst(i, 32)}); finishCall(*q, mkC(i, k.w)); work.push_back(q); }
        S.inputs.push_back({nm, X.cst(0, 32)}); ret = mkC(0, k.w); return true; });
    H("symx_concretize", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t v = concretize(S, a[0]); ret = mkC(v, 64); return true; });
    H("symx_observe", [](State& S, KInst&, std::vector<Val>& a, Val&) { S.obs.push_back({readStr(S, a[0]), a[1]}); return true; });
    H("symx_is_symbolic", [](State&, KInst&, std::vector<Val>&, Val& ret) { ret = mkC(1, 32); return true; });
    H("symx_range_float", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { // integer-valued float in [lo,hi]
        std::string nm = readStr(S, a[2]); int64_t lo = (int64_t)(int32_t)concretize(S, a[0]), hi = (int64_t)(int32_t)concretize(S, a[1]);
        E v = smallInt(S, lo, hi, nm, 16);
        ret = mkV(X.intF(v, 32, lo, hi)); return true; });
    H("symx_range_int", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { // integer in [lo,hi], as narrow a symbol as possible
        std::string nm = readStr(S, a[2]); int64_t lo = (int64_t)concretize(S, a[0]), hi = (int64_t)concretize(S, a[1]);
        ret = mkV(smallInt(S, lo, hi, nm, 64)); return true; });
    H("symx_peek_init", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { // are n bytes at p initialised and mapped?
        uint64_t p = concretize(S, a[0]), n = concretize(S, a[1]); int oi = findObj(S, p); bool ok = oi >= 0 && p - S.mem[oi].p->base + n <= S.mem[oi].p->size;
        if (ok && !S.mem[oi].p->init.empty()) for (uint64_t i = 0; i < n; i++) if (!S.mem[oi].p->init[p - S.mem[oi].p->base + i]) ok = false;
        ret = mkC(ok, 32); return true; });
    H("symx_live_heap", [](State& S, KInst&, std::vector<Val>&, Val& ret) { uint64_t n = 0; for (auto& o : S.mem) if (o.p->kind >= 2 && o.p->kind <= 4) n++; ret = mkC(n, 64); return true; });
    auto yield = [](State& S, KInst&, std::vector<Val>&, Val& ret) {
        ret = mkC(0, 32);
        if (S.th.size() < 2) { return true; }
        S.T().status = TYield; S.T().yieldEpoch = S.epoch; S.T().skipSched = false;
        finishCall(S, mkC(0, 32)); pickNext(S); return false; };
    H("symx_yield sched_yield llvm.x86.sse2.pause usleep nanosleep", yield);
    H("symx_thread_spawn", [](State& S, KInst&, std::vector<Val>& a, Val& ret) {
        uint64_t fn = concretize(S, a[0]); auto it = faddr.find(fn); if (it == faddr.end()) unsupported(S, "spawn of unknown function");
        int t = S.th.size(); S.th.emplace_back();
        vcTick(S); S.th[t].vc = S.T().vc; if ((int)S.th[t].vc.size() <= t) S.th[t].vc.resize(t + 1, 0); S.th[t].vc[t] = 1; vcTick(S);
        int c = S.cur; S.cur = t; pushFrame(S, getKF(it->second), {a[1]}); S.cur = c; S.epoch++;
        ret = mkC(t, 64); finishCall(S, ret); schedPoint(S); return false; });
    H("symx_thread_join", [](State& S, KInst&, std::vector<Val>& a, Val& ret) {
        uint64_t t = concretize(S, a[0]); if (t >= S.th.size()) report(S, "thread", "join of an invalid thread", nullptr);
        if (S.th[t].status != TDone) { S.T().status = TBlockJoin; S.T().waitA = t; pickNext(S); return false; }
        vcJoin(S.T().vc, S.th[t].vc); ret = mkC(0, 32); return true; });
    H("symx_thread_id pthread_self", [](State& S, KInst& k, std::vector<Val>&, Val& ret) { ret = mkC(S.cur + 1, k.w); return true; });
    H("symx_trace", [](State& S, KInst&, std::vector<Val>& a, Val&) { fprintf(stderr, "TRACE %s: ", readStr(S, a[0]).c_str()); if (a[1].isC()) fprintf(stderr, "0x%llx\n", (unsigned long long)a[1].c); else fprintf(stderr, "symbolic\n"); return true; });
    // --- memory
    H("malloc", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { ret = doAlloc(S, a[0], 2, 16, false); return true; });
    H("calloc", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t n = concretize(S, a[0]), m = concretize(S, a[1]); ret = doAlloc(S, mkC(n * m, 64), 2, 16, true); return true; });
    H("aligned_alloc memalign", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t al = concretize(S, a[0]); ret = doAlloc(S, a[1], 2, al, false); return true; });
    H("mmap", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { // anonymous memory only; huge pages are not available
        uint64_t n = concretize(S, a[1]), fl = concretize(S, a[3]);
        if (!(fl & 0x20)) unsupported(S, "mmap of a file");
        if ((fl & 0x40000) || n == 0) { ret = mkC(~0ull, 64); return true; }
        ret = mkC(allocObj(S, (n + 4095) & ~4095ull, 6, 4096, true, "mmap"), 64); return true; });
    H("munmap", [](State& S, KInst&, std::vector<Val>& a, Val& ret) {
        uint64_t p = concretize(S, a[0]), n = concretize(S, a[1]); int oi = findObj(S, p);
        if (oi < 0 || S.mem[oi].p->base != p || S.mem[oi].p->kind != 6) report(S, "memory", "munmap of an invalid pointer: " + objDesc(S, p), nullptr);
        if (((n + 4095) & ~4095ull) != S.mem[oi].p->vsize) report(S, "memory", "munmap of " + std::to_string(n) + " bytes of a mapping of " + std::to_string(S.mem[oi].p->vsize), nullptr);
        raceFree(S, p, S.mem[oi].p->size); oi = findObj(S, p); freeObj(S, oi); ret = mkC(0, 32); return true; });
    H("posix_memalign", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t al = concretize(S, a[1]); Val p = doAlloc(S, a[2], 2, al, false); writeMem(S, a[0], 8, p); ret = mkC(0, 32); return true; });
    H("realloc", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t o = concretize(S, a[0]); Val n = doAlloc(S, a[1], 2, 16, false); if (o) { int oi = findObj(S, o); uint64_t sz = S.mem[oi].p->size; copyBytes(S, n, mkC(o, 64), std::min<uint64_t>(sz, a[1].c)); doFree(S, mkC(o, 64), 2, nullptr); } ret = n; return true; });
    H("_Znwm _ZnwmRKSt9nothrow_t", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { ret = doAlloc(S, a[0], 3, 16, false); return true; });
    H("_Znam _ZnamRKSt9nothrow_t", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { ret = doAlloc(S, a[0], 4, 16, false); return true; });
    H("_ZnwmSt11align_val_t _ZnwmSt11align_val_tRKSt9nothrow_t", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t al = concretize(S, a[1]); ret = doAlloc(S, a[0], 3, al, false); return true; });
    H("_ZnamSt11align_val_t", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t al = concretize(S, a[1]); ret = doAlloc(S, a[0], 4, al, false); return true; });
    H("free", [](State& S, KInst&, std::vector<Val>& a, Val&) { doFree(S, a[0], 2, nullptr); return true; });
    H("_ZdlPv _ZdlPvRKSt9nothrow_t _ZdlPvSt11align_val_t", [](State& S, KInst&, std::vector<Val>& a, Val&) { doFree(S, a[0], 3, nullptr); return true; });
    H("_ZdlPvm _ZdlPvmSt11align_val_t", [](State& S, KInst&, std::vector<Val>& a, Val&) { doFree(S, a[0], 3, &a[1]); return true; });
    H("_ZdaPv _ZdaPvSt11align_val_t", [](State& S, KInst&, std::vector<Val>& a, Val&) { doFree(S, a[0], 4, nullptr); return true; });
    H("_ZdaPvm _ZdaPvmSt11align_val_t", [](State& S, KInst&, std::vector<Val>& a, Val&) { doFree(S, a[0], 4, &a[1]); return true; });
    H("memcpy memmove", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t n = concretize(S, a[2]); if (n) { concretize(S, a[0]); concretize(S, a[1]); copyBytes(S, a[0], a[1], n); } ret = a[0]; return true; });
    H("memset", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t n = concretize(S, a[2]); setBytes(S, a[0], mkV(X.extract(toE(a[1]), 0, 8)), n); ret = a[0]; return true; });
    H("memcmp bcmp", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { return memcmpH(S, a, ret); });
    // --- exceptions
    H("__cxa_allocate_exception", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t n = concretize(S, a[0]); ret = mkC(allocObj(S, n + 8, 5, 16, false, "exception"), 64); return true; });
    H("__cxa_free_exception", [](State& S, KInst&, std::vector<Val>& a, Val&) { uint64_t p = concretize(S, a[0]); int oi = findObj(S, p); if (oi >= 0) freeObj(S, oi); return true; });
    H("__cxa_throw", [](State& S, KInst&, std::vector<Val>& a, Val&) { uint64_t e = concretize(S, a[0]); Exc x; x.obj = e; x.ti = concretize(S, a[1]); S.excs[e] = x; doThrow(S, e); return false; });
    H("__cxa_init_primary_exception", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t e = concretize(S, a[0]); Exc x; x.obj = e; x.ti = concretize(S, a[1]); x.refs = 0; S.excs[e] = x; ret = a[0]; return true; });
    H("__cxa_begin_catch __cxa_get_exception_ptr", [](State& S, KInst& k, std::vector<Val>& a, Val& ret) {
        uint64_t e = concretize(S, a[0]); if (k.callee->getName() == "__cxa_begin_catch") { S.T().caught.push_back(e); S.excs[e].handlers++; } ret = mkC(S.excs[e].obj ? S.excs[e].obj : e, 64); return true; });
    H("__cxa_end_catch", [](State& S, KInst&, std::vector<Val>&, Val&) {
        auto& c = S.T().caught; if (c.empty()) return true; uint64_t e = c.back(); c.pop_back(); auto it = S.excs.find(e); if (it != S.excs.end()) { it->second.handlers--; if (it->second.handlers <= 0 && it->second.id != 1) dropExc(S, e); else if (it->second.id == 1) it->second.id = 0; } return true; });
    H("__cxa_rethrow", [](State& S, KInst&, std::vector<Val>&, Val&) { auto& c = S.T().caught; if (c.empty()) report(S, "terminate", "rethrow without a current exception", nullptr); uint64_t e = c.back(); S.excs[e].id = 1; doThrow(S, e); return false; });
    H("_ZSt17current_exceptionv", [](State& S, KInst&, std::vector<Val>& a, Val&) { auto& c = S.T().caught; uint64_t e = c.empty() ? 0 : c.back(); if (e) S.excs[e].refs++; writeMem(S, a[0], 8, mkC(e, 64)); return true; });
    H("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", [](State& S, KInst&, std::vector<Val>& a, Val&) { uint64_t p = concretize(S, a[0]); uint64_t e = rdPtr(S, p); if (!S.excs.count(e)) report(S, "terminate", "rethrow of an empty exception_ptr", nullptr); S.excs[e].refs++; doThrow(S, e); return false; });
    H("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", [](State& S, KInst&, std::vector<Val>& a, Val&) { uint64_t e = rdPtr(S, concretize(S, a[0])); if (S.excs.count(e)) S.excs[e].refs++; return true; });
    H("_ZNSt15__exception_ptr13exception_ptrC1EPv _ZNSt15__exception_ptr13exception_ptrC2EPv", [](State& S, KInst&, std::vector<Val>& a, Val&) { uint64_t e = concretize(S, a[1]); writeMem(S, a[0], 8, mkC(e, 64)); if (S.excs.count(e)) S.excs[e].refs++; return true; });
    H("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", [](State& S, KInst&, std::vector<Val>& a, Val&) { uint64_t p = concretize(S, a[0]); uint64_t e = rdPtr(S, p); if (e) { writeMem(S, mkC(p, 64), 8, mkC(0, 64)); dropExc(S, e); } return true; });
    H("_ZSt18uncaught_exceptionv _ZSt19uncaught_exceptionsv", [](State&, KInst& k, std::vector<Val>&, Val& ret) { ret = mkC(0, k.w); return true; });
    H("_ZSt9terminatev abort __cxa_pure_virtual __cxa_bad_cast __cxa_bad_typeid", [](State& S, KInst& k, std::vector<Val>&, Val&) { report(S, "terminate", k.callee->getName().str() + " called", nullptr); return true; });
    H("__cxa_throw_bad_array_new_length", [](State& S, KInst&, std::vector<Val>&, Val&) { report(S, "memory", "bad array new length", nullptr); return true; });
    H("__assert_fail", [](State& S, KInst&, std::vector<Val>& a, Val&) { report(S, "terminate", "assertion in the code failed: " + readStr(S, a[0]), nullptr); return true; });
    H("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](State& S, KInst&, std::vector<Val>& a, Val&) { report(S, "terminate", "libstdc++ assertion failed: " + readStr(S, a[3]), nullptr); return true; });
    H("_ZNSt8ios_base4InitC1Ev _ZNSt8ios_base4InitD1Ev", [](State&, KInst&, std::vector<Val>&, Val&) { return true; });
    H("exit _exit _Exit", [](State& S, KInst&, std::vector<Val>&, Val&) { pathDone(S, "exit"); return true; });
    H("__cxa_atexit __cxa_thread_atexit atexit", [](State&, KInst& k, std::vector<Val>&, Val& ret) { ret = mkC(0, k.w); return true; });
    H("__cxa_guard_acquire", [](State& S, KInst& k, std::vector<Val>& a, Val& ret) {
        uint64_t p = concretize(S, a[0]); Val v = readMem(S, a[0], 1);
        if (v.c) { auto it = S.syncVC.find(p); if (it != S.syncVC.end()) vcJoin(S.T().vc, it->second); ret = mkC(0, k.w); return true; }
        Val r; if (!lockMutex(S, p, true, r)) return false;
        if (readMem(S, a[0], 1).c) { unlockMutex(S, p); ret = mkC(0, k.w); return true; }
        ret = mkC(1, k.w); return true; });
    H("__cxa_guard_release", [](State& S, KInst&, std::vector<Val>& a, Val&) { uint64_t p = concretize(S, a[0]); writeMem(S, a[0], 1, mkC(1, 8)); S.syncVC[p] = S.T().vc; unlockMutex(S, p); vcTick(S); return true; });
    H("__cxa_guard_abort", [](State& S, KInst&, std::vector<Val>& a, Val&) { unlockMutex(S, concretize(S, a[0])); return true; });
    // --- mutex / condition variables / rwlock
    H("pthread_mutex_lock", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { return lockMutex(S, concretize(S, a[0]), true, ret); });
    H("pthread_mutex_trylock", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { return lockMutex(S, concretize(S, a[0]), false, ret); });
    H("pthread_mutex_unlock pthread_rwlock_unlock", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t p = concretize(S, a[0]); schedPoint(S); unlockMutex(S, p); ret = mkC(0, 32); return true; });
    H("pthread_rwlock_wrlock", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { return lockMutex(S, concretize(S, a[0]), true, ret); });
    H("pthread_rwlock_trywrlock", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { return lockMutex(S, concretize(S, a[0]), false, ret); });
    H("pthread_rwlock_rdlock", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t p = concretize(S, a[0]); schedPoint(S); auto& m = S.mtx[p]; if (m.owner >= 0) { if (m.owner == S.cur) { ret = mkC(35, 32); return true; } S.T().status = TBlockRd; S.T().waitA = p; pickNext(S); return false; } m.readers++; vcJoin(S.T().vc, m.vc); ret = mkC(0, 32); return true; });
    H("pthread_rwlock_tryrdlock", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t p = concretize(S, a[0]); schedPoint(S); auto& m = S.mtx[p]; if (m.owner >= 0) { ret = mkC(16, 32); return true; } m.readers++; vcJoin(S.T().vc, m.vc); ret = mkC(0, 32); return true; });
    H("pthread_mutex_init pthread_mutex_destroy pthread_rwlock_init pthread_rwlock_destroy pthread_cond_init pthread_cond_destroy pthread_setname_np pthread_attr_init", [](State&, KInst& k, std::vector<Val>&, Val& ret) { if (k.w) ret = mkC(0, k.w); return true; });
    H("_ZNSt18condition_variableC1Ev _ZNSt18condition_variableD1Ev _ZNSt18condition_variableC2Ev _ZNSt18condition_variableD2Ev", [](State&, KInst&, std::vector<Val>&, Val&) { return true; });
    auto cvwait = [](State& S, KInst&, std::vector<Val>& a, Val& ret) -> bool {
        uint64_t cv = concretize(S, a[0]), lk = concretize(S, a[1]); uint64_t m = rdPtr(S, lk);
        if (S.T().phase == 0) {
            schedPoint(S);
            if (S.mtx[m].owner != S.cur) report(S, "mutex", "condition wait without holding the mutex", nullptr);
            unlockMutex(S, m); S.T().phase = 1; S.T().status = TBlockCond; S.T().waitA = cv; S.T().waitB = m; pickNext(S); return false;
        }
        if (S.mtx[m].owner >= 0) { S.T().status = TBlockMutex; S.T().waitA = m; pickNext(S); return false; }
        S.mtx[m].owner = S.cur; vcJoin(S.T().vc, S.mtx[m].vc); S.T().phase = 0; S.T().skipSched = false; ret = mkC(0, 32); return true; };
    H("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", cvwait);
    H("_ZNSt18condition_variable10notify_allEv pthread_cond_broadcast", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { uint64_t cv = concretize(S, a[0]); schedPoint(S); S.epoch++; for (auto& T : S.th) if (T.status == TBlockCond && T.waitA == cv) T.status = TRun; ret = mkC(0, 32); return true; });
    H("_ZNSt18condition_variable10notify_oneEv pthread_cond_signal", [](State& S, KInst&, std::vector<Val>& a, Val& ret) {
        uint64_t cv = concretize(S, a[0]); schedPoint(S); S.epoch++; std::vector<int> w; for (int t = 0; t < (int)S.th.size(); t++) if (S.th[t].status == TBlockCond && S.th[t].waitA == cv) w.push_back(t);
        ret = mkC(0, 32);
        for (size_t i = 1; i < w.size(); i++) { State* n = cloneState(S); n->th[w[i]].status = TRun; finishCall(*n, ret); work.push_back(n); }
        if (!w.empty()) S.th[w[0]].status = TRun; return true; });
    // --- misc
    H("_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv", [](State& S, KInst&, std::vector<Val>&, Val& ret) { S.clockNs += 1000; ret = mkC(S.clockNs, 64); return true; });
    H("time", [](State& S, KInst&, std::vector<Val>&, Val& ret) { ret = mkC(S.clockNs / 1000000000ull, 64); return true; });
    H("_ZNSt6thread20hardware_concurrencyEv", [](State&, KInst& k, std::vector<Val>&, Val& ret) { ret = mkC(2, k.w); return true; });
    H("__errno_location", [](State& S, KInst&, std::vector<Val>&, Val& ret) { static const char* nm = "errno"; for (auto& o : S.mem) if (o.p->name == nm) { ret = mkC(o.p->base, 64); return true; } ret = mkC(allocObj(S, 4, 0, 16, true, nm), 64); return true; });
    H("puts printf putchar fflush fprintf fputs fputc fwrite", [](State&, KInst& k, std::vector<Val>&, Val& ret) { if (k.w) ret = mkC(1, k.w); return true; });
    H("sqrt sqrtf", [](State&, KInst&, std::vector<Val>& a, Val& ret) { ret = mkV(X.fsqrt(toE(a[0]))); return true; });
    H("floor floorf", [](State&, KInst&, std::vector<Val>& a, Val& ret) { ret = mkV(X.fround(toE(a[0]), 0)); return true; });
    H("ceil ceilf", [](State&, KInst&, std::vector<Val>& a, Val& ret) { ret = mkV(X.fround(toE(a[0]), 1)); return true; });
    H("pow powf log logf exp expf log2 log10 fmod log1p sin cos tan", [](State& S, KInst& k, std::vector<Val>& a, Val& ret) {
        for (auto& x : a) if (!x.isC()) unsupported(S, "symbolic transcendental"); double x = ExprCtx::fval(a[0].c, a[0].w); StringRef n = k.callee->getName(); double r = 0;
        if (n.starts_with("pow")) r = pow(x, ExprCtx::fval(a[1].c, a[1].w)); else if (n == "fmod") r = fmod(x, ExprCtx::fval(a[1].c, a[1].w)); else if (n.starts_with("log2")) r = log2(x); else if (n.starts_with("log10")) r = log10(x); else if (n == "log1p") r = log1p(x); else if (n.starts_with("log")) r = log(x); else if (n.starts_with("exp")) r = exp(x); else if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else r = tan(x);
        ret = mkV(X.fconst(r, a[0].w)); return true; });
    H("logl", [](State& S, KInst&, std::vector<Val>& a, Val& ret) { if (toE(a[0])->op != OpConst) unsupported(S, "logl"); ret = put80(logl(get80(a[0]))); return true; });
    auto emptyStr = [](State& S, KInst& k, std::vector<Val>& a, Val& ret) { // std::string returned through sret
        if (k.I->getType()->isVoidTy() && !a.empty()) { uint64_t p = concretize(S, a[0]); writeMem(S, mkC(p, 64), 8, mkC(p + 16, 64)); writeMem(S, mkC(p + 8, 64), 8, mkC(0, 64)); setBytes(S, mkC(p + 16, 64), mkC(0, 8), 16); }
        else if (k.w) ret = mkC(0, k.w); return true; };
    H("#emptystr", emptyStr);
    H("#noop", [](State& S, KInst& k, std::vector<Val>& a, Val& ret) {
        auto* c = cast<CallBase>(k.I);
        if (c->hasStructRetAttr()) { Type* t = c->getParamStructRetType(0); setBytes(S, a[0], mkC(0, 8), typeAlloc(t)); }
        if (!k.I->getType()->isVoidTy()) ret = zeroOf(k.I->getType()); return true; });
    H("#unwindcast", [](State&, KInst&, std::vector<Val>&, Val&) { return true; });
    H("__dynamic_cast", [](State& S, KInst&, std::vector<Val>& a, Val& ret) {
        uint64_t p = concretize(S, a[0]); if (!p) { ret = mkC(0, 64); return true; }
        uint64_t vt = rdPtr(S, p); int64_t top = (int64_t)rdPtr(S, vt - 16); uint64_t ti = rdPtr(S, vt - 8); int64_t adj = 0;
        if (tiMatches(ti, a[2].c, adj)) ret = mkC(p + top + adj, 64); else ret = mkC(0, 64); return true; });
}
static int handlerFor(KFunc* K) {
    if (K->noop) return K->noop - 1;
    std::string n = K->F->getName().str();
    auto it = handlerIdx.find(n);
    int r = -1;
    if (it != handlerIdx.end()) r = it->second;
    else {
        const std::string& d = K->dem;
        auto starts = [&](const char* p) { size_t L = strlen(p); if (d.compare(0, L, p) == 0) return true; // with a return type in front (templates)
            size_t q = d.find(std::string(" ") + p); size_t paren = d.find('('); return q != std::string::npos && (paren == std::string::npos || q < paren) && d.substr(0, q).find('<') == std::string::npos; };
        if (starts("svs::logging::") || starts("spdlog::")) r = handlerIdx["#noop"];
        else if (K->F->isDeclaration() && (d.find("fmt::v9::vformat") == 0 || d.find("fmt::v9::detail::error_handler") == 0)) r = handlerIdx["#emptystr"];
        else if (K->F->isDeclaration() && d.find("fmt::v9::") == 0) r = handlerIdx["#noop"];
    }
    if (r < 0) r = -2;
    K->noop = r + 1;
    return r;
}

// ------------------------------------------------------------------------------ path end
static uint64_t rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static void pathDone(State& S, const std::string& end) {
    nPaths++;
    if (optSamplePaths > 0 && !S.pc.empty()) {
        size_t slot = samplePaths.size(); bool take = (int)slot < optSamplePaths;
        if (!take) { uint64_t r = rng() % nPaths; if (r < (uint64_t)optSamplePaths) { take = true; slot = r; } }
        if (take) {
            PathRec p; p.end = end; collectInputs(S, S.model, p.inputs); X.newEval(); static const ExprCtx::Model em;
            for (auto& o : S.obs) p.obs.push_back({o.name, (uint64_t)X.eval(toE(o.v), S.model ? *S.model : em)});
            if (slot == samplePaths.size()) samplePaths.push_back(p); else samplePaths[slot] = p;
        }
    } else if (optSamplePaths > 0 && samplePaths.empty()) { PathRec p; p.end = end; collectInputs(S, S.model, p.inputs); for (auto& o : S.obs) p.obs.push_back({o.name, o.v.isC() ? o.v.c : 0}); samplePaths.push_back(p); }
    killPath();
}

// ------------------------------------------------------------------------------ step
static Val faddGep(State& S, Frame& f, KInst& k) {
    (void)S;
    const Val& b = opv(f, k.ops[0]);
    if (b.isC()) {
        uint64_t a = b.c + k.off; bool conc = true;
        for (auto& g : k.gep) { const Val& i = opv(f, g.first); if (!i.isC()) { conc = false; break; } a += (uint64_t)(sext64(i.c, i.w) * g.second); }
        if (conc) return mkC(a, 64);
    }
    E e = X.bin(OpAdd, toE(b), X.cst(k.off, 64));
    for (auto& g : k.gep) { E i = toE(opv(f, g.first)); i = i->w < 64 ? X.sext(i, 64) : i->w > 64 ? X.extract(i, 0, 64) : i; e = X.bin(OpAdd, e, X.bin(OpMul, i, X.cst(g.second, 64))); }
    return mkV(e);
}
static bool inShared(State& S, const Val& a) { return a.isC() ? true : true; }
static void doCall(State& S, KInst& k) {
    auto* c = cast<CallBase>(k.I);
    std::vector<Val> args; { Frame& f = S.F(); size_t n = c->arg_size(); args.reserve(n); for (size_t i = 0; i < n; i++) args.push_back(k.ops[i] == SLOT_NONE ? bad() : opv(f, k.ops[i])); }
    KFunc* K = k.kcallee;
    if (!K) {
        if (c->isInlineAsm()) {
            std::string as = cast<InlineAsm>(c->getCalledOperand())->getAsmString();
            if (as.empty() || as.find("nop") == 0) { finishCall(S, k.I->getType()->isVoidTy() ? bad() : (args.empty() ? zeroOf(k.I->getType()) : args[0])); return; }
            if (as.find("pause") != std::string::npos) { Val r; handlers[handlerIdx["symx_yield"]](S, k, args, r) ? finishCall(S, r) : (void)0; return; }
            unsupported(S, "inline asm " + as);
        }
        Frame& f = S.F(); Val fp = opv(f, k.ops.back());
        uint64_t a = concretize(S, fp, "function pointer");
        auto it = faddr.find(a);
        if (it == faddr.end()) report(S, "memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer", nullptr);
        K = getKF(it->second);
    }
    Function* F = K->F;
    if (F->isIntrinsic()) {
        Val ret; Intrinsic::ID id = F->getIntrinsicID();
        if (id == Intrinsic::x86_sse2_pause) { if (handlers[handlerIdx["symx_yield"]](S, k, args, ret)) finishCall(S, ret); return; }
        intrinsic(S, k, id, args, ret); finishCall(S, ret); return;
    }
    int h = handlerFor(K);
    if (h >= 0) {
        KInst* kk = &k; KInst tmp;
        if (!k.callee) { tmp = k; tmp.callee = F; kk = &tmp; }
        Val ret; if (k.w) ret = mkC(0, std::min(64u, k.w));
        if (handlers[h](S, *kk, args, ret)) { if (k.w && ret.isC() && ret.w != k.w && k.w <= 64) ret = mkC(ret.c, k.w); finishCall(S, ret); }
        return;
    }
    if (F->isDeclaration()) unsupported(S, "external function " + K->dem);
    pushFrame(S, K, std::move(args));
}
static void step(State& S) {
    Frame& f = S.F();
    KInst& k = f.f->code[f.pc];
    nInst++; S.insts++;
    Instruction* I = k.I;
    switch (k.opc) {
        case Instruction::Ret: {
            Val r; bool has = !k.ops.empty(); if (has) r = opv(f, k.ops[0]);
            popFrame(S);
            if (S.T().st.empty()) { endThread(S); return; }
            finishCall(S, r); return; }
        case Instruction::Br: {
            if (k.ops.empty()) { branchTo(S, k.t0); return; }
            const Val& c = opv(f, k.ops[0]);
            bool t = c.isC() ? c.c : decide(S, c.e);
            branchTo(S, t ? k.t0 : k.t1); return; }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I); Val c = opv(f, k.ops[0]);
            if (c.isC()) { for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { branchTo(S, f.f->bbIdx[cs.getCaseSuccessor()]); return; } }
            else for (auto& cs : sw->cases()) if (decide(S, X.eq(c.e, toE(apVal(cs.getCaseValue()->getValue()))))) { branchTo(S, S.F().f->bbIdx[cs.getCaseSuccessor()]); return; }
            branchTo(S, f.f->bbIdx[sw->getDefaultDest()]); return; }
        case Instruction::Unreachable: report(S, "unreachable", "control reaches code the compiler proved undefined (missing return or undefined behaviour)", nullptr); return;
        case Instruction::Resume: { uint64_t e = (*opv(f, k.ops[0]).agg)[0].c; popFrame(S); if (S.T().st.empty()) uncaught(S, e, {}); unwindFrom(S, e); return; }
        case Instruction::Invoke: case Instruction::Call: doCall(S, k); return;
        case Instruction::Alloca: {
            auto* al = cast<AllocaInst>(I); uint64_t n = 1; if (al->isArrayAllocation()) { Val c = opv(f, k.ops[0]); n = concretize(S, c); }
            uint64_t a = allocObj(S, typeAlloc(al->getAllocatedType()) * n, 1, al->getAlign().value(), false, "");
            S.F().allocas.push_back(a); S.F().r[k.dst] = mkC(a, 64); break; }
        case Instruction::Load: {
            auto* ld = cast<LoadInst>(I); Val a = opv(f, k.ops[0]);
            if (ld->isAtomic() && S.th.size() > 1) { schedPoint(S); if (a.isC()) { if (ordAcq(ld->getOrdering())) { auto it = S.syncVC.find(a.c); if (it != S.syncVC.end()) vcJoin(S.T().vc, it->second); } } }
            else if (optRace && S.th.size() > 1 && a.isC()) raceAccess(S, a.c, typeStore(I->getType()), false);
            Val v = loadT(S, a, I->getType());
            S.F().r[k.dst] = v; break; }
        case Instruction::Store: {
            auto* st = cast<StoreInst>(I); Val a = opv(f, k.ops[1]); Val v = opv(f, k.ops[0]); Type* t = st->getValueOperand()->getType();
            if (st->isAtomic()) {
                if (S.th.size() > 1) { schedPoint(S); if (a.isC()) { if (ordRel(st->getOrdering())) { S.syncVC[a.c] = S.T().vc; vcTick(S); } else S.syncVC.erase(a.c); } }
                S.epoch++;
            } else if (optRace && S.th.size() > 1 && a.isC()) raceAccess(S, a.c, typeStore(t), true);
            storeT(S, a, t, v); break; }
        case Instruction::Fence: schedPoint(S); break;
        case Instruction::AtomicCmpXchg: {
            auto* cx = cast<AtomicCmpXchgInst>(I); Val a = opv(f, k.ops[0]), cmp = opv(f, k.ops[1]), nw = opv(f, k.ops[2]);
            schedPoint(S); uint64_t ad = concretize(S, a);
            Val old = loadT(S, a, cx->getCompareOperand()->getType());
            E eq = X.eq(toE(old), toE(cmp)); bool ok = eq->op == OpConst ? eq->c : decide(S, eq);
            if (ok) { if (ordAcq(cx->getSuccessOrdering())) { auto it = S.syncVC.find(ad); if (it != S.syncVC.end()) vcJoin(S.T().vc, it->second); } storeT(S, a, cx->getNewValOperand()->getType(), nw); if (ordRel(cx->getSuccessOrdering())) { vcJoin(S.syncVC[ad], S.T().vc); vcTick(S); } S.epoch++; }
            else if (ordAcq(cx->getFailureOrdering())) { auto it = S.syncVC.find(ad); if (it != S.syncVC.end()) vcJoin(S.T().vc, it->second); }
            S.F().r[k.dst] = mkAgg({old, mkC(ok, 1)}); break; }
        case Instruction::AtomicRMW: {
            auto* rm = cast<AtomicRMWInst>(I); Val a = opv(f, k.ops[0]), v = opv(f, k.ops[1]);
            schedPoint(S); uint64_t ad = concretize(S, a);
            if (ordAcq(rm->getOrdering())) { auto it = S.syncVC.find(ad); if (it != S.syncVC.end()) vcJoin(S.T().vc, it->second); }
            Val old = loadT(S, a, rm->getType()); E o = toE(old), x = toE(v), r;
            switch (rm->getOperation()) {
                case AtomicRMWInst::Xchg: r = x; break; case AtomicRMWInst::Add: r = X.bin(OpAdd, o, x); break; case AtomicRMWInst::Sub: r = X.bin(OpSub, o, x); break;
                case AtomicRMWInst::And: r = X.bin(OpAnd, o, x); break; case AtomicRMWInst::Or: r = X.bin(OpOr, o, x); break; case AtomicRMWInst::Xor: r = X.bin(OpXor, o, x); break;
                case AtomicRMWInst::UMax: r = X.ite(X.bin(OpUlt, o, x), x, o); break; case AtomicRMWInst::UMin: r = X.ite(X.bin(OpUlt, o, x), o, x); break;
                default: unsupported(S, "atomicrmw");
            }
            storeT(S, a, rm->getType(), mkV(r)); if (ordRel(rm->getOrdering())) { vcJoin(S.syncVC[ad], S.T().vc); vcTick(S); } S.epoch++;
            S.F().r[k.dst] = old; break; }
        case Instruction::GetElementPtr:
            if (k.t0 == 1) { // vector of pointers
                auto* vt = cast<FixedVectorType>(I->getType()); std::vector<Val> r;
                for (unsigned l = 0; l < vt->getNumElements(); l++) {
                    const Val& b = opv(f, k.ops[0]); E e = X.bin(OpAdd, toE(b.agg ? (*b.agg)[l] : b), X.cst(k.off, 64));
                    for (auto& g : k.gep) { const Val& gi = opv(f, g.first); E i = toE(gi.agg ? (*gi.agg)[l] : gi); i = i->w < 64 ? X.sext(i, 64) : i; e = X.bin(OpAdd, e, X.bin(OpMul, i, X.cst(g.second, 64))); }
                    r.push_back(mkV(e));
                }
                f.r[k.dst] = mkAgg(std::move(r)); break;
            }
            f.r[k.dst] = faddGep(S, f, k); break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
            { Val v = doCast(&S, k.opc, I->getOperand(0)->getType(), I->getType(), opv(f, k.ops[0])); S.F().r[k.dst] = v; break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            { Val v = binop(S, k.opc, I->getType(), opv(f, k.ops[0]), opv(f, k.ops[1])); S.F().r[k.dst] = v; break; }
        case Instruction::FNeg: f.r[k.dst] = map1(opv(f, k.ops[0]), [](const Val& x) { return mkV(X.fneg(toE(x))); }); break;
        case Instruction::ICmp: { unsigned p = cast<ICmpInst>(I)->getPredicate(); f.r[k.dst] = map2(opv(f, k.ops[0]), opv(f, k.ops[1]), [p](const Val& x, const Val& y) { return icmpLane(p, x, y); }); break; }
        case Instruction::FCmp: { unsigned p = cast<FCmpInst>(I)->getPredicate();
            if (I->getOperand(0)->getType()->isX86_FP80Ty()) { long double x = get80(opv(f, k.ops[0])), y = get80(opv(f, k.ops[1])); bool r; switch (p) { case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; default: r = x != y; } f.r[k.dst] = mkC(r, 1); break; }
            f.r[k.dst] = map2(opv(f, k.ops[0]), opv(f, k.ops[1]), [p](const Val& x, const Val& y) { return fcmpLane(p, x, y); }); break; }
        case Instruction::Select: {
            const Val& c = opv(f, k.ops[0]); const Val& a = opv(f, k.ops[1]); const Val& b = opv(f, k.ops[2]);
            if (c.agg) { std::vector<Val> r; for (size_t i = 0; i < c.agg->size(); i++) { const Val& ci = (*c.agg)[i]; r.push_back(ci.isC() ? (ci.c ? (*a.agg)[i] : (*b.agg)[i]) : selVal(ci.e, (*a.agg)[i], (*b.agg)[i])); } f.r[k.dst] = mkAgg(std::move(r)); }
            else if (c.isC()) { Val v = c.c ? a : b; f.r[k.dst] = v; }
            else if (I->getType()->isPointerTy() && !(a.isC() && b.isC() && a.c == b.c)) { bool t = decide(S, c.e); Frame& g = S.F(); Val v = opv(g, t ? k.ops[1] : k.ops[2]); g.r[k.dst] = v; }
            else { Val v = selVal(c.e, a, b); f.r[k.dst] = v; }
            break; }
        case Instruction::ExtractValue: { const Val* v = &opv(f, k.ops[0]); for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = &(*v->agg)[i]; Val r = *v; f.r[k.dst] = r; break; }
        case Instruction::InsertValue: {
            auto* iv = cast<InsertValueInst>(I); Val v = opv(f, k.ops[0]); Val x = opv(f, k.ops[1]);
            std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& b, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return x; auto q = *b.agg; q[ix[0]] = ins(q[ix[0]], ix.drop_front()); return mkAgg(std::move(q)); };
            f.r[k.dst] = ins(v, iv->getIndices()); break; }
        case Instruction::ExtractElement: { Val idx = opv(f, k.ops[1]); uint64_t i = concretize(S, idx); Frame& g = S.F(); const Val& v = opv(g, k.ops[0]); Val r = i < v.agg->size() ? (*v.agg)[i] : zeroOf(I->getType()); g.r[k.dst] = r; break; }
        case Instruction::InsertElement: { Val idx = opv(f, k.ops[2]); uint64_t i = concretize(S, idx); Frame& g = S.F(); auto q = *opv(g, k.ops[0]).agg; if (i < q.size()) q[i] = opv(g, k.ops[1]); g.r[k.dst] = mkAgg(std::move(q)); break; }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(I); const Val& a = opv(f, k.ops[0]); const Val& b = opv(f, k.ops[1]); size_t n = a.agg->size(); std::vector<Val> r;
            Type* et = cast<FixedVectorType>(I->getType())->getElementType();
            for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? zeroOf(et) : (size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); f.r[k.dst] = mkAgg(std::move(r)); break; }
        case Instruction::Freeze: { Val v = opv(f, k.ops[0]); f.r[k.dst] = v; break; }
        case Instruction::LandingPad: fprintf(stderr, "landingpad executed\n"); abort();
        case Instruction::VAArg: unsupported(S, "va_arg");
        default: unsupported(S, std::string("instruction ") + I->getOpcodeName());
    }
    S.F().pc++;
}

// ------------------------------------------------------------------------------ driver
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static double lastOut = 0; static size_t lastErrs = 0; static bool finished = false;
static void writeOut() {
    bool inc0 = incomplete; std::string why0 = incompleteWhy;
    if (!finished && !incomplete) { incomplete = true; incompleteWhy = "engine stopped before the end"; }
    lastOut = nowS();
    std::string tmp = outFile + ".tmp";
    FILE* o = outFile.empty() ? stdout : fopen(tmp.c_str(), "w");
    std::string s = "{\n";
    auto num = [&](const char* k, double v) { char b[100]; snprintf(b, sizeof b, " \"%s\": %.17g,\n", k, v); s += b; };
    num("paths", nPaths); num("states", nStates + 1); num("forks", nForks); num("instructions", nInst); num("asserts", nAsserts); num("asserts_symbolic", nAssertsSymbolic);
    num("assume_killed", nKilledAssume); num("unsupported", nUnsupported); num("limit", nLimit); num("undecided", nUndecided);
    num("queries", SV->queries); num("sat", SV->sat); num("unsat", SV->unsat); num("unknown", SV->unknown); num("cache_hits", SV->cacheHits); num("solver_s", SV->time); num("max_query_s", SV->maxQ); num("wall_s", nowS() - tStart); num("symbols", X.syms.size()); num("exprs", X.nextId);
    s += std::string(" \"incomplete\": ") + (incomplete ? "true" : "false") + ",\n \"incomplete_why\": " + jstr(incompleteWhy) + ",\n";
    s += " \"reach\": {"; bool first = true; for (auto& r : reachCount) { s += (first ? "" : ", ") + jstr(r.first) + ": " + std::to_string(r.second); first = false; } s += "},\n";
    s += " \"unsupported_msgs\": {"; first = true; for (auto& r : unsupportedMsgs) { s += (first ? "" : ", ") + jstr(r.first) + ": " + std::to_string(r.second); first = false; } s += "},\n";
    s += " \"functions\": ["; first = true;
    std::set<std::string> fn; for (auto& kv : KF) if (kv.second->touched) fn.insert(kv.second->dem); for (auto& f : fn) { s += (first ? "" : ", ") + jstr(f.substr(0, 200)); first = false; } s += "],\n";
    auto pairs = [&](const std::vector<std::pair<std::string, std::string>>& v) { std::string r = "["; bool f = true; for (auto& p : v) { r += (f ? "" : ", ") + ("[" + jstr(p.first) + ", " + jstr(p.second) + "]"); f = false; } return r + "]"; };
    s += " \"errors\": ["; first = true;
    for (auto& e : errors) { s += first ? "\n" : ",\n"; first = false; s += "  {\"kind\": " + jstr(e.kind) + ", \"msg\": " + jstr(e.msg) + ", \"loc\": " + jstr(e.loc) + ", \"inputs\": " + pairs(e.inputs) + ", \"stack\": ["; bool f = true; for (auto& q : e.stack) { s += (f ? "" : ", ") + jstr(q); f = false; } s += "], \"sched\": ["; f = true; for (auto& q : e.sched) { s += (f ? "" : ", ") + jstr(q); f = false; } s += "]}"; }
    s += "],\n \"samples\": ["; first = true;
    for (auto& p : samplePaths) { s += first ? "\n" : ",\n"; first = false; s += "  {\"inputs\": " + pairs(p.inputs) + ", \"obs\": ["; bool f = true; for (auto& q : p.obs) { s += (f ? "" : ", ") + ("[" + jstr(q.first) + ", " + std::to_string(q.second) + "]"); f = false; } s += "]}"; }
    s += "]\n}\n";
    fwrite(s.data(), 1, s.size(), o); if (o != stdout) { fclose(o); rename(tmp.c_str(), outFile.c_str()); }
    incomplete = inc0; incompleteWhy = why0;
}
static void runState(State* S) {
    try {
        uint64_t cnt = 0;
        for (;;) {
            if ((++cnt & 1023) == 0) {
                if (nowS() - tStart > optTime) { incomplete = true; incompleteWhy = "time limit"; delete S; throw 1; }
            }
            if (S->insts > optMaxInst) {
                nLimit++;
                if (optHangError) report(*S, "hang", "no termination within " + std::to_string(optMaxInst) + " instructions", nullptr);
                incomplete = true; incompleteWhy = "instruction limit"; break; }
            step(*S);
        }
    } catch (Kill&) {}
    delete S;
}
static std::unordered_set<const GlobalValue*> live;
static void markLive(const std::vector<Function*>& roots) {
    std::vector<const Value*> wl; std::unordered_set<const Value*> seen;
    auto push = [&](const Value* v) { if (isa<Constant>(v) && seen.insert(v).second) wl.push_back(v); };
    for (auto* f : roots) push(f);
    if (auto* e = MOD->getNamedGlobal("_ZTISt9exception")) push(e);
    while (!wl.empty()) {
        const Value* v = wl.back(); wl.pop_back();
        if (auto* gv = dyn_cast<GlobalValue>(v)) live.insert(gv);
        if (auto* f = dyn_cast<Function>(v)) {
            for (auto& B : *f) for (auto& I : B) { for (auto& o : I.operands()) push(o.get()); if (auto* lp = dyn_cast<LandingPadInst>(&I)) for (unsigned i = 0; i < lp->getNumClauses(); i++) push(lp->getClause(i)); }
            if (f->hasPersonalityFn()) push(f->getPersonalityFn());
        } else if (auto* g = dyn_cast<GlobalVariable>(v)) { if (g->hasInitializer()) push(g->getInitializer()); }
        else if (auto* a = dyn_cast<GlobalAlias>(v)) push(a->getAliasee());
        else if (auto* c = dyn_cast<Constant>(v)) for (auto& o : c->operands()) push(o.get());
    }
}
static State* initState() {
    State* S = new State; S->th.resize(1); S->th[0].vc = {1};
    uint64_t fa = 0x10000;
    for (auto& F : *MOD) { gaddr[&F] = fa; faddr[fa] = &F; addrGV[fa] = &F; fa += 16; }
    for (auto& G : MOD->globals()) {
        if (G.getName().starts_with("llvm.") || !live.count(&G)) continue;
        uint64_t sz = G.getValueType()->isSized() ? typeAlloc(G.getValueType()) : 0;
        if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
        uint64_t al = G.getAlign() ? G.getAlign()->value() : 16;
        std::string* nm = new std::string(demangle(G.getName().str()));
        uint64_t a = allocObj(*S, sz ? sz : 1, 0, al, true, nm->c_str());
        gaddr[&G] = a; addrGV[a] = &G;
    }
    for (auto& G : MOD->globals()) {
        if (!gaddr.count(&G) || !G.hasInitializer()) continue;
        writeConst(*S, gaddr[&G], G.getInitializer());
    }
    for (auto& G : MOD->globals()) if (gaddr.count(&G) && G.isConstant() && G.hasInitializer()) { int oi = findObj(*S, gaddr[&G]); if (oi >= 0) wr(*S, oi)->ro = true; }
    return S;
}
static void callFunction(State& S, Function* F, std::vector<Val> args) { pushFrame(S, getKF(F), std::move(args)); }

int main(int argc, char** argv) {
    std::string file, entry; unsigned solverMs = 20000; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--entry=")) entry = v;
        else if (auto v = val("--out=")) outFile = v;
        else if (auto v = val("--time=")) optTime = atof(v);
        else if (auto v = val("--max-inst=")) optMaxInst = strtoull(v, 0, 0);
        else if (auto v = val("--preempt=")) optPreempt = atoi(v);
        else if (auto v = val("--max-errors=")) optMaxErrors = atoi(v);
        else if (auto v = val("--samples=")) optSamplePaths = atoi(v);
        else if (auto v = val("--solver-ms=")) solverMs = atoi(v);
        else if (auto v = val("--ite-max=")) optIteMax = atoi(v);
        else if (auto v = val("--idle-max=")) optIdleMax = atoi(v);
        else if (auto v = val("--seed=")) rngState ^= strtoull(v, 0, 0) * 0x9E3779B97F4A7C15ull;
        else if (a == "--no-poly") X.usePoly = false;
        else if (a == "--no-uninit") optUninit = false;
        else if (a == "--race") optRace = true;
        else if (a == "--no-hang") optHangError = false;
        else if (a == "--trace") optTrace = true;
        else if (a == "--list") list = true;
        else file = a;
    }
    tStart = nowS();
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(file, err, ctx);
    if (!M) { err.print("symx", errs()); return 3; }
    MOD = M.get(); DL = &M->getDataLayout();
    if (list) { for (auto& F : *M) if (F.isDeclaration() && !F.isIntrinsic()) printf("%s  %s\n", F.getName().str().c_str(), demangle(F.getName().str()).c_str()); return 0; }
    Solver sv(X); SV = &sv; sv.timeoutMs = solverMs;
    setupHandlers();
    Function* E0 = M->getFunction(entry);
    if (!E0) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // global constructors run before the entry: collect them and execute sequentially
    std::vector<std::pair<int, Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o.get()); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::vector<Function*> roots{E0}; for (auto& c : ctors) roots.push_back(c.second);
    markLive(roots);
    State* S = initState();
    for (auto& c : ctors) {
        try {
            callFunction(*S, c.second, {});
            size_t lim = 0;
            // run until the frame pops: the sentinel is an empty stack before endThread
            while (true) {
                Frame& f = S->F();
                if (S->T().st.size() == 1 && f.f->code[f.pc].opc == Instruction::Ret) { popFrame(*S); break; }
                step(*S); if (++lim > 20000000) { fprintf(stderr, "constructor too long\n"); return 3; }
            }
        } catch (Kill&) { fprintf(stderr, "global constructor %s failed\n", c.second->getName().str().c_str()); while (!S->T().st.empty()) S->T().st.pop_back(); }
    }
    S->insts = 0;
    std::vector<Val> args; for (auto& a : E0->args()) args.push_back(zeroOf(a.getType()));
    try { callFunction(*S, E0, args); } catch (Kill&) {}
    work.push_back(S);
    uint64_t picks = 0; lastOut = nowS();
    try {
        while (!work.empty()) {
            if (work.size() > 1 && work.size() < 20000 && (++picks & 3) == 0) { rngState = rngState * 6364136223846793005ull + 1442695040888963407ull; std::swap(work[(rngState >> 33) % work.size()], work.back()); }
            State* s = work.back(); work.pop_back();
            if (!outFile.empty() && (errors.size() != lastErrs || nowS() - lastOut > 15)) { lastErrs = errors.size(); writeOut(); }
            if (nowS() - tStart > optTime) { incomplete = true; incompleteWhy = "time limit"; break; }
            if ((int)errors.size() >= optMaxErrors) { incomplete = true; incompleteWhy = "error limit"; break; }
            runState(s);
        }
    } catch (int) {}
    finished = true; writeOut();
    fprintf(stderr, "paths=%llu states=%llu inst=%llu queries=%llu solver=%.1fs wall=%.1fs errors=%zu unsupported=%llu%s\n", (unsigned long long)nPaths, (unsigned long long)nStates, (unsigned long long)nInst, (unsigned long long)SV->queries, SV->time, nowS() - tStart, errors.size(), (unsigned long long)nUnsupported, incomplete ? (" INCOMPLETE " + incompleteWhy).c_str() : "");
    _exit(errors.empty() ? 0 : 1);
}
