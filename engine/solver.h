#pragma once
#include "expr.h"
#include <chrono>
#include <set>

inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

typedef std::shared_ptr<const ExprCtx::Model> ModelP;

// ---- polynomial normal form (ring of integers mod 2^64, exact) used to discharge and to
// shrink equalities between re-associated sums before they reach Z3 -----------------------
struct Poly {
    ExprCtx* Xp = nullptr;
    typedef std::vector<uint32_t> Mono; // sorted expr ids
    std::map<Mono, uint64_t> t;
    static std::unordered_map<uint32_t, E>& atoms() { static std::unordered_map<uint32_t, E> a; return a; }
    bool overflow = false;
    Poly() {}
    explicit Poly(ExprCtx& x) : Xp(&x) {}
    void addMono(const Mono& m, uint64_t c) { auto& r = t[m]; r += c; if (!r) t.erase(m); if (t.size() > 20000) overflow = true; }
    void add(const Poly& p, uint64_t k) { for (auto& kv : p.t) addMono(kv.first, kv.second * k); overflow |= p.overflow; }
    // value of e read as signed 64-bit integer
    static Poly of(ExprCtx& X, E e, bool sgn, std::map<std::pair<uint32_t, bool>, Poly>& cache) {
        auto key = std::make_pair(e->id, sgn);
        auto it = cache.find(key); if (it != cache.end()) return it->second;
        Poly p(X);
        auto atom = [&](E x) { E y = x->w < 64 ? (sgn ? X.sext(x, 64) : X.zext(x, 64)) : x; if (y->op == OpConst) p.addMono({}, y->c); else { atoms()[y->id] = y; p.addMono({y->id}, 1); } };
        if (e->op == OpConst) { p.addMono({}, sgn ? (uint64_t)sext64(e->c, e->w) : e->c); }
        else if (e->op == OpSExt && e->w == 64) p = of(X, e->k[0], true, cache);
        else if (e->op == OpZExt && e->w == 64) p = of(X, e->k[0], false, cache);
        else if (e->op == OpSExt && sgn) p = of(X, e->k[0], true, cache);
        else if (e->op == OpZExt) p = of(X, e->k[0], false, cache);
        else if (e->op == OpAdd || e->op == OpSub || e->op == OpMul) {
            bool ok = e->w == 64;
            if (!ok) {
                int64_t lo, hi, l2, h2, l3, h3;
                // result of the narrow operation must not wrap
                ok = X.srange(e->k[0], l2, h2) && X.srange(e->k[1], l3, h3);
                if (ok) {
                    i128 a, b;
                    if (e->op == OpAdd) { a = (i128)l2 + l3; b = (i128)h2 + h3; }
                    else if (e->op == OpSub) { a = (i128)l2 - h3; b = (i128)h2 - l3; }
                    else { i128 q[4] = {(i128)l2 * l3, (i128)l2 * h3, (i128)h2 * l3, (i128)h2 * h3}; a = *std::min_element(q, q + 4); b = *std::max_element(q, q + 4); }
                    ok = a >= -(i128)(1ull << (e->w - 1)) && b <= (i128)(maskw(e->w - 1));
                    if (!sgn && a < 0) ok = false;
                }
                (void)lo; (void)hi;
            }
            if (!ok) atom(e);
            else {
                bool s2 = e->w == 64 ? sgn : true;
                Poly a = of(X, e->k[0], s2, cache), b = of(X, e->k[1], s2, cache);
                if (e->op == OpMul) {
                    if (a.t.size() * b.t.size() > 400) atom(e);
                    else for (auto& x : a.t) for (auto& y : b.t) { Mono m = x.first; m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end()); p.addMono(m, x.second * y.second); }
                } else { p = a; p.add(b, e->op == OpAdd ? 1 : ~0ull); }
            }
        } else atom(e);
        cache[key] = p;
        return p;
    }
    E toExpr() {
        ExprCtx& X = *Xp;
        E r = X.cst(0, 64);
        for (auto& kv : t) { E m = X.cst(kv.second, 64); for (auto id : kv.first) m = X.bin(OpMul, m, atoms()[id]); r = X.bin(OpAdd, r, m); }
        return r;
    }
};

struct Solver {
    ExprCtx& X;
    Z3_context z;
    Z3_solver inc = nullptr;
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
    double time = 0, maxQ = 0;
    unsigned timeoutMs = 20000;
    bool useTactic = false;
    std::string dumpDir;
    struct CacheEnt { int res; std::vector<std::pair<uint32_t, u128>> vals; };
    std::unordered_map<std::string, CacheEnt> cache;

    Solver(ExprCtx& x) : X(x) {
        Z3_config cfg = Z3_mk_config();
        z = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        X.z3 = z;
        Z3_set_error_handler(z, nullptr);
        newSolver();
    }
    void newSolver() {
        if (inc) Z3_solver_dec_ref(z, inc);
        inc = Z3_mk_simple_solver(z);
        Z3_solver_inc_ref(z, inc);
        setTimeout(inc, timeoutMs);
    }
    void setTimeout(Z3_solver s, unsigned ms) {
        Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
        Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
    }
    static bool fpHeavy(E e, std::unordered_set<E>& seen) {
        if (!seen.insert(e).second) return false;
        if (e->op >= OpFAdd && e->op <= OpFRound) return true;
        for (int i = 0; i < 3 && e->k[i]; i++) if (fpHeavy(e->k[i], seen)) return true;
        return false;
    }
    // Slice of pc relevant to c.
    void slice(const std::vector<E>& pc, E c, std::vector<E>& out) {
        std::vector<uint32_t> cur = *X.symsOf(c);
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (used[i]) continue;
                auto* s = X.symsOf(pc[i]);
                bool hit = false;
                size_t a = 0, b = 0;
                while (a < s->size() && b < cur.size()) { if ((*s)[a] == cur[b]) { hit = true; break; } if ((*s)[a] < cur[b]) a++; else b++; }
                if (!hit) continue;
                used[i] = 1; out.push_back(pc[i]); ch = true;
                std::vector<uint32_t> u; std::set_union(cur.begin(), cur.end(), s->begin(), s->end(), std::back_inserter(u)); cur.swap(u);
            }
        }
    }
    // 1 sat, 0 unsat, -1 unknown.  On sat fills model (based on `base` for unrelated symbols)
    int check(const std::vector<E>& pc, E c, const ModelP& base, ModelP* out) {
        if (c->op == OpConst) { if (!c->c) return 0; if (out) *out = base; return 1; }
        std::vector<E> q;
        slice(pc, c, q);
        q.push_back(c);
        std::vector<uint32_t> ids; for (E e : q) ids.push_back(e->id);
        std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
        std::string key((const char*)ids.data(), ids.size() * 4);
        auto it = cache.find(key);
        if (it == cache.end()) {
            CacheEnt ent; ent.res = solve(q, ent.vals);
            it = cache.emplace(key, std::move(ent)).first;
        } else cacheHits++;
        if (it->second.res == 1 && out) {
            auto m = std::make_shared<ExprCtx::Model>(base ? *base : ExprCtx::Model());
            if (m->size() < X.syms.size()) m->resize(X.syms.size(), 0);
            for (auto& kv : it->second.vals) (*m)[kv.first] = kv.second;
            *out = m;
        }
        return it->second.res;
    }
    int solve(const std::vector<E>& q, std::vector<std::pair<uint32_t, u128>>& vals) {
        queries++;
        double t0 = nowS();
        std::set<uint32_t> ss;
        for (E e : q) for (auto s : *X.symsOf(e)) ss.insert(s);
        int res = -1;
        std::unordered_set<E> seen; bool fp = false;
        for (E e : q) fp = fp || fpHeavy(e, seen);
        for (int attempt = 0; attempt < 2 && res < 0; attempt++) {
            Z3_solver s;
            bool own = false;
            if (attempt == 0 && !fp) { s = inc; Z3_solver_push(z, s); setTimeout(s, std::min(timeoutMs, 3000u)); }
            else {
                if (attempt == 0 && fp) { attempt = 1; }
                Z3_tactic t = fp ? Z3_mk_tactic(z, "qffpbv") : Z3_mk_tactic(z, "qfbv");
                Z3_tactic_inc_ref(z, t);
                s = Z3_mk_solver_from_tactic(z, t); Z3_solver_inc_ref(z, s);
                Z3_tactic_dec_ref(z, t);
                setTimeout(s, timeoutMs);
                own = true;
            }
            for (E e : q) Z3_solver_assert(z, s, X.toBool(e));
            Z3_lbool r = Z3_solver_check(z, s);
            if (r == Z3_L_TRUE) {
                res = 1;
                Z3_model m = Z3_solver_get_model(z, s);
                if (m) {
                    Z3_model_inc_ref(z, m);
                    for (uint32_t id : ss) {
                        Expr t; memset((void*)&t, 0, sizeof t); t.op = OpSym; t.w = X.syms[id].w; t.c = id;
                        E se = X.intern(t);
                        Z3_ast v = nullptr;
                        u128 val = 0;
                        if (Z3_model_eval(z, m, X.toZ3(se), true, &v) && v) {
                            Z3_inc_ref(z, v);
                            if (t.w <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(z, v, &u); val = u; }
                            else { // wide: parse decimal string
                                const char* p = Z3_get_numeral_string(z, v); for (; *p; p++) val = val * 10 + (*p - '0'); }
                            Z3_dec_ref(z, v);
                        }
                        vals.push_back({id, val});
                    }
                    Z3_model_dec_ref(z, m);
                }
            } else if (r == Z3_L_FALSE) res = 0;
            if (own) Z3_solver_dec_ref(z, s); else Z3_solver_pop(z, s, 1);
        }
        double dt = nowS() - t0; time += dt; if (dt > maxQ) maxQ = dt;
        if (res == 1) sat++; else if (res == 0) unsat++; else unknown++;
        if (queries % 20000 == 0) newSolver();
        return res;
    }
};
