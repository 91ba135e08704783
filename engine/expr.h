// Symbolic bit-vector expressions (hash-consed DAG) for symx.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <numeric>
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
    OpConst, OpSym,
    OpAdd, OpSub, OpMul, OpUDiv, OpSDiv, OpURem, OpSRem,
    OpAnd, OpOr, OpXor, OpShl, OpLShr, OpAShr,
    OpEq, OpUlt, OpUle, OpSlt, OpSle,
    OpIte, OpConcat, OpExtract, OpZExt, OpSExt,
    // IEEE operations on bit patterns.
    OpFAdd, OpFSub, OpFMul, OpFDiv, OpFRem, OpFSqrt, OpFMA,
    OpFExt, OpFTrunc, OpFToSI, OpFToUI, OpSIToF, OpUIToF, OpFRound,
    // An integer-valued float: k[0] is a 64-bit signed integer with |k0| small enough to be
    // exactly representable. lo/hi hold a conservative interval. (sign of zero abstracted)
    OpIntF,
};

struct Expr {
    Op op;
    uint16_t w;      // width in bits
    uint8_t tainted; // depends on an uninitialised read
    uint8_t depth;
    uint32_t id;
    uint64_t c, c2;  // const lo / hi 64 bits; extract offset; sym id; rounding mode
    const Expr* k[3];
    int64_t lo, hi;  // IntF interval
    mutable Z3_ast z3 = nullptr;
    mutable const std::vector<uint32_t>* syms = nullptr;
    mutable uint64_t evGen = 0;
    mutable int64_t srLo = 0, srHi = 0; mutable uint8_t srState = 0; // memoised interval of srange
    mutable uint64_t evLo = 0, evHi = 0;
};
typedef const Expr* E;

struct SymInfo { std::string name; uint32_t idx; uint16_t w; bool uninit; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}
inline i128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= mask128(w);
    return (i128)((v ^ m) - m);
}

struct ExprCtx {
    std::vector<SymInfo> syms;
    std::vector<Expr*> all;
    uint64_t evGen = 0;
    bool usePoly = true; // decide sums of products by their normal form before asking the solver
    Z3_context z3 = nullptr;
    uint32_t nextId = 0;

    struct Key { const Expr* e; };
    struct H { size_t operator()(const Expr* e) const {
        uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
        mix(e->c); mix(e->c2); mix((uint64_t)e->k[0]); mix((uint64_t)e->k[1]); mix((uint64_t)e->k[2]);
        return h; } };
    struct Q { bool operator()(const Expr* a, const Expr* b) const {
        return a->op == b->op && a->w == b->w && a->c == b->c && a->c2 == b->c2 && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
    std::unordered_set<Expr*, H, Q> table;
    char* arena = nullptr; size_t arenaLeft = 0;

    Expr* intern(const Expr& t) {
        auto it = table.find(const_cast<Expr*>(&t));
        if (it != table.end()) {
            if (t.op == OpIntF) { // tighten interval
                (*it)->lo = std::max((*it)->lo, t.lo); (*it)->hi = std::min((*it)->hi, t.hi);
            }
            return *it;
        }
        if (arenaLeft < sizeof(Expr)) { size_t n = 1 << 20; arena = (char*)malloc(n); arenaLeft = n; }
        Expr* e = new (arena) Expr(t);
        arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
        e->id = nextId++;
        table.insert(e);
        return e;
    }
    E mk(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint64_t cv = 0, uint64_t cv2 = 0) {
        Expr t; memset((void*)&t, 0, sizeof t);
        t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = cv; t.c2 = cv2;
        t.tainted = (a && a->tainted) || (b && b->tainted) || (c && c->tainted);
        return intern(t);
    }
    E cst(uint64_t v, unsigned w) { return mk(OpConst, w, 0, 0, 0, v & maskw(w), 0); }
    E cst128(u128 v, unsigned w) { v &= mask128(w); return mk(OpConst, w, 0, 0, 0, (uint64_t)v, (uint64_t)(v >> 64)); }
    E sym(const std::string& name, unsigned w, bool uninit = false) {
        syms.push_back({name, (uint32_t)syms.size(), (uint16_t)w, uninit});
        Expr t; memset((void*)&t, 0, sizeof t);
        t.op = OpSym; t.w = w; t.c = syms.size() - 1; t.tainted = uninit;
        return intern(t);
    }
    bool isC(E e) const { return e->op == OpConst; }
    u128 cv(E e) const { return ((u128)e->c2 << 64) | e->c; }
    E tru() { return cst(1, 1); }
    E fls() { return cst(0, 1); }

    // ---- builders -------------------------------------------------------------------
    bool two(E e) const { return e->op == OpIte && isC(e->k[1]) && isC(e->k[2]); }
    // a small constant divided by anything: the quotient only depends on a few thresholds
    E smallDiv(Op op, E a, E b, unsigned w) {
        uint64_t c = a->c;
        auto at = [&](uint64_t q) { return op == OpUDiv ? cst(q, w) : bin(OpSub, a, bin(OpMul, b, cst(q, w))); };
        E r = at(0);
        for (uint64_t q = 1; q <= c; q = c / (c / q) + 1) { uint64_t k = c / (c / q); /* largest quotient with this threshold */ r = ite(bin(OpUle, b, cst(c / k, w)), at(k), r); }
        return ite(bin(OpEq, b, cst(0, w)), op == OpUDiv ? cst(~0ull, w) : a, r);
    }
    E bin(Op op, E a, E b) {
        unsigned w = a->w;
        if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
        if (isC(a) && isC(b) && w <= 128) {
            u128 r; if (foldBin(op, cv(a), cv(b), w, r)) return cst128(r, (op >= OpEq && op <= OpSle) ? 1 : w);
        }
        if (w > 1 && w <= 128) { // operations on two-valued operands stay two-valued
            bool ta = two(a), tb = two(b);
            if (ta && isC(b)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
            if (tb && isC(a)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
            if (ta && tb && a->k[0] == b->k[0]) return ite(a->k[0], bin(op, a->k[1], b->k[1]), bin(op, a->k[2], b->k[2]));
        }
        switch (op) {
            case OpAdd: {
                if (isC(a)) std::swap(a, b);
                if (isC(b)) {
                    if (cv(b) == 0) return a;
                    if (a->op == OpAdd && isC(a->k[1]) && w <= 128) return bin(OpAdd, a->k[0], cst128(cv(a->k[1]) + cv(b), w));
                    return mk(OpAdd, w, a, b);
                }
                // pull constants out: (x + c) + y -> (x + y) + c
                if (a->op == OpAdd && isC(a->k[1])) return bin(OpAdd, bin(OpAdd, a->k[0], b), a->k[1]);
                if (b->op == OpAdd && isC(b->k[1])) return bin(OpAdd, bin(OpAdd, a, b->k[0]), b->k[1]);
                // x + (y - x)
                if (b->op == OpSub && b->k[1] == a) return b->k[0];
                if (a->op == OpSub && a->k[1] == b) return a->k[0];
                if (a->id > b->id) std::swap(a, b);
                return mk(OpAdd, w, a, b);
            }
            case OpSub: {
                if (a == b) return cst(0, w);
                if (isC(b) && w <= 128) return bin(OpAdd, a, cst128(-cv(b), w));
                if (a->op == OpAdd) {
                    if (a->k[0] == b) return a->k[1];
                    if (a->k[1] == b) return a->k[0];
                    if (isC(a->k[1])) return bin(OpAdd, bin(OpSub, a->k[0], b), a->k[1]);
                }
                if (b->op == OpAdd && isC(b->k[1]) && w <= 128) return bin(OpAdd, bin(OpSub, a, b->k[0]), cst128(-cv(b->k[1]), w));
                return mk(OpSub, w, a, b);
            }
            case OpMul: {
                if (isC(a)) std::swap(a, b);
                if (isC(b)) {
                    if (cv(b) == 0) return b;
                    if (cv(b) == 1) return a;
                    if (a->op == OpAdd && isC(a->k[1]) && w <= 64) return bin(OpAdd, bin(OpMul, a->k[0], b), bin(OpMul, a->k[1], b));
                }
                if (a == b && a->op == OpIte && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bin(OpMul, a->k[1], a->k[1]), bin(OpMul, a->k[2], a->k[2]));
                if (!isC(b) && a->id > b->id) std::swap(a, b);
                return mk(OpMul, w, a, b);
            }
            case OpUDiv: if (isC(b) && cv(b) == 1) return a;
                if (isC(b) && w <= 64 && b->c && !(b->c & (b->c - 1))) return bin(OpLShr, a, cst(__builtin_ctzll(b->c), w));
                if (isC(a) && w <= 64 && a->c <= 256) return smallDiv(op, a, b, w);
                return mk(op, w, a, b);
            case OpURem: if (isC(b) && cv(b) == 1) return cst(0, w);
                if (isC(b) && w <= 64 && b->c && !(b->c & (b->c - 1))) return bin(OpAnd, a, cst(b->c - 1, w));
                if (isC(a) && w <= 64 && a->c <= 256) return smallDiv(op, a, b, w);
                return mk(op, w, a, b);
            case OpSDiv: if (isC(b) && cv(b) == 1) return a; return mk(op, w, a, b);
            case OpSRem: if (isC(b) && cv(b) == 1) return cst(0, w); return mk(op, w, a, b);
            case OpAnd: {
                if (a == b) return a;
                if (isC(a)) std::swap(a, b);
                if (isC(b) && w <= 128) {
                    if (cv(b) == 0) return b;
                    if (cv(b) == mask128(w)) return a;
                    if (a->op == OpAnd && isC(a->k[1])) return bin(OpAnd, a->k[0], cst128(cv(a->k[1]) & cv(b), w));
                    // mask of low bits -> zext(extract)
                    u128 m = cv(b);
                    if (((m + 1) & m) == 0) { unsigned n = 0; while (m) { n++; m >>= 1; } return zext(extract(a, 0, n), w); }
                    // high mask clearing low bits only
                    if (w <= 64) {
                        uint64_t inv = ~b->c & maskw(w);
                        if (((inv + 1) & inv) == 0) { unsigned n = 0; while (inv) { n++; inv >>= 1; } return concat(extract(a, n, w - n), cst(0, n)); }
                    }
                }
                if (w == 1) { if (isNot(a) == b || isNot(b) == a) return fls(); }
                if (!isC(b) && a->id > b->id) std::swap(a, b);
                return mk(op, w, a, b);
            }
            case OpOr: {
                if (a == b) return a;
                if (isC(a)) std::swap(a, b);
                if (isC(b) && w <= 128) {
                    if (cv(b) == 0) return a;
                    if (cv(b) == mask128(w)) return b;
                }
                if (w == 1) { if (isNot(a) == b || isNot(b) == a) return tru(); }
                // or of disjoint parts built by zext/shl: (zext(lo)) | (hi << n)
                if (E r = orAsConcat(a, b)) return r;
                if (E r = orAsConcat(b, a)) return r;
                if (!isC(b) && a->id > b->id) std::swap(a, b);
                return mk(op, w, a, b);
            }
            case OpXor: {
                if (a == b) return cst(0, w);
                if (isC(a)) std::swap(a, b);
                if (isC(b) && w <= 128) {
                    if (cv(b) == 0) return a;
                    if (a->op == OpXor && isC(a->k[1])) return bin(OpXor, a->k[0], cst128(cv(a->k[1]) ^ cv(b), w));
                    if (w == 1) { // not
                        if (a->op == OpUlt) return mk(OpUle, 1, a->k[1], a->k[0]);
                        if (a->op == OpUle) return mk(OpUlt, 1, a->k[1], a->k[0]);
                        if (a->op == OpSlt) return mk(OpSle, 1, a->k[1], a->k[0]);
                        if (a->op == OpSle) return mk(OpSlt, 1, a->k[1], a->k[0]);
                        if (a->op == OpIte && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], bin(OpXor, a->k[1], b), bin(OpXor, a->k[2], b));
                    }
                }
                if (!isC(b) && a->id > b->id) std::swap(a, b);
                return mk(op, w, a, b);
            }
            case OpShl: case OpLShr: case OpAShr: {
                if (isC(b)) {
                    u128 s = cv(b);
                    if (s == 0) return a;
                    if (s >= w) { if (op == OpAShr) s = w - 1; else return cst(0, w); }
                    unsigned n = (unsigned)s;
                    if (op == OpShl) return concat(extract(a, 0, w - n), cst(0, n));
                    if (op == OpLShr) return zext(extract(a, n, w - n), w);
                    return sext(extract(a, n, w - n), w);
                }
                if (isC(a) && cv(a) == 0) return a;
                return mk(op, w, a, b);
            }
            case OpEq: {
                if (a == b) return tru();
                if (isC(a)) std::swap(a, b);
                if (isC(b)) {
                    if (w == 1) return b->c ? a : lnot(a);
                    if (w <= 128) {
                        if (a->op == OpZExt) {
                            unsigned iw = a->k[0]->w;
                            if ((cv(b) >> iw) != 0) return fls();
                            return bin(OpEq, a->k[0], cst128(cv(b), iw));
                        }
                        if (a->op == OpSExt) {
                            unsigned iw = a->k[0]->w;
                            if (((u128)sext128(cv(b), iw) & mask128(w)) != cv(b)) return fls();
                            return bin(OpEq, a->k[0], cst128(cv(b), iw));
                        }
                        if (a->op == OpConcat) {
                            unsigned lw = a->k[1]->w;
                            E l = bin(OpEq, a->k[1], cst128(cv(b), lw));
                            E h = bin(OpEq, a->k[0], cst128(cv(b) >> lw, a->k[0]->w));
                            return land(h, l);
                        }
                        if (a->op == OpAdd && isC(a->k[1])) return bin(OpEq, a->k[0], cst128(cv(b) - cv(a->k[1]), w));
                        if (a->op == OpXor && isC(a->k[1])) return bin(OpEq, a->k[0], cst128(cv(b) ^ cv(a->k[1]), w));
                        if (a->op == OpSub && cv(b) == 0) return bin(OpEq, a->k[0], a->k[1]);
                    }
                    if (a->op == OpIte && (isC(a->k[1]) || isC(a->k[2])))
                        return ite(a->k[0], bin(OpEq, a->k[1], b), bin(OpEq, a->k[2], b));
                } else {
                    if (a->op == OpZExt && b->op == OpZExt && a->k[0]->w == b->k[0]->w) return bin(OpEq, a->k[0], b->k[0]);
                    if (a->op == OpSExt && b->op == OpSExt && a->k[0]->w == b->k[0]->w) return bin(OpEq, a->k[0], b->k[0]);
                    if (a->op == OpAdd && b->op == OpAdd && isC(a->k[1]) && a->k[1] == b->k[1]) return bin(OpEq, a->k[0], b->k[0]);
                    if (a->op == OpAdd && (a->k[0] == b)) return bin(OpEq, a->k[1], cst(0, w));
                    if (a->op == OpAdd && (a->k[1] == b)) return bin(OpEq, a->k[0], cst(0, w));
                    if (b->op == OpAdd && (b->k[0] == a)) return bin(OpEq, b->k[1], cst(0, w));
                    if (b->op == OpAdd && (b->k[1] == a)) return bin(OpEq, b->k[0], cst(0, w));
                    if (w == 1) return lnot(bin(OpXor, a, b));
                    if (w >= 8) { E rest = nullptr; int r = polyEq(a, b, &rest); if (r >= 0) return cst(r, 1); if (rest) return rest; }
                }
                if (!isC(b) && a->id > b->id) std::swap(a, b);
                return mk(OpEq, 1, a, b);
            }
            case OpUlt: {
                if (a == b) return fls();
                if (isC(b) && w <= 128) {
                    if (cv(b) == 0) return fls();
                    if (cv(b) == 1) return bin(OpEq, a, cst(0, w));
                    if (a->op == OpZExt) { unsigned iw = a->k[0]->w; if ((cv(b) >> iw) != 0) return tru(); return bin(OpUlt, a->k[0], cst128(cv(b), iw)); }
                }
                if (isC(a) && w <= 128) {
                    if (cv(a) == mask128(w)) return fls();
                    if (cv(a) == 0) return lnot(bin(OpEq, b, cst(0, w)));
                    if (b->op == OpZExt) { unsigned iw = b->k[0]->w; if ((cv(a) >> iw) != 0) return fls(); return bin(OpUlt, cst128(cv(a), iw), b->k[0]); }
                }
                if (a->op == OpZExt && b->op == OpZExt && a->k[0]->w == b->k[0]->w) return bin(OpUlt, a->k[0], b->k[0]);
                if (w == 1) return land(lnot(a), b);
                if (a->op == OpIte && isC(b) && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
                return mk(op, 1, a, b);
            }
            case OpUle: {
                if (a == b) return tru();
                return lnot(bin(OpUlt, b, a));
            }
            case OpSlt: {
                if (a == b) return fls();
                if (a->op == OpSExt && b->op == OpSExt && a->k[0]->w == b->k[0]->w) return bin(OpSlt, a->k[0], b->k[0]);
                if (a->op == OpZExt && b->op == OpZExt) {
                    if (a->k[0]->w == b->k[0]->w) return bin(OpUlt, a->k[0], b->k[0]);
                }
                if (isC(b) && a->op == OpSExt && w <= 64) {
                    unsigned iw = a->k[0]->w; int64_t v = sext64(b->c, w);
                    if (v > sext64(maskw(iw - 1), iw) && iw > 1) return tru();
                    if (v < -(int64_t)(1ull << (iw - 1))) return fls();
                    if (sext64(v, iw) == v) return bin(OpSlt, a->k[0], cst(v, iw));
                }
                if (isC(a) && b->op == OpSExt && w <= 64) {
                    unsigned iw = b->k[0]->w; int64_t v = sext64(a->c, w);
                    if (iw > 1 && v >= sext64(maskw(iw - 1), iw)) return fls();
                    if (v < -(int64_t)(1ull << (iw - 1))) return tru();
                    if (sext64(v, iw) == v) return bin(OpSlt, cst(v, iw), b->k[0]);
                }
                if (isC(b) && a->op == OpZExt && w <= 64) {
                    int64_t v = sext64(b->c, w);
                    if (v <= 0) return fls();
                    return bin(OpUlt, a, b);
                }
                if (isC(a) && b->op == OpZExt && w <= 64) {
                    int64_t v = sext64(a->c, w);
                    if (v < 0) return tru();
                    return bin(OpUlt, a, b);
                }
                if (a->op == OpIte && isC(b) && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
                if (E r = polyLess(a, b)) return r;
                return mk(op, 1, a, b);
            }
            case OpSle: {
                if (a == b) return tru();
                return lnot(bin(OpSlt, b, a));
            }
            default: abort();
        }
    }
    E orAsConcat(E a, E b) { // a = zext(lo), b = concat(hi, 0:n) with lo.w <= n
        if (a->op == OpZExt && b->op == OpConcat && isC(b->k[1]) && cv(b->k[1]) == 0 && a->k[0]->w <= b->k[1]->w)
            return concat(b->k[0], zext(a->k[0], b->k[1]->w));
        return nullptr;
    }
    E isNot(E e) { return (e->op == OpXor && e->w == 1 && isC(e->k[1]) && e->k[1]->c) ? e->k[0] : nullptr; }
    E lnot(E a) { return bin(OpXor, a, tru()); }
    E land(E a, E b) { return bin(OpAnd, a, b); }
    E lor(E a, E b) { return bin(OpOr, a, b); }
    E eq(E a, E b) { return bin(OpEq, a, b); }
    E neg(E a) { return bin(OpSub, cst(0, a->w), a); }

    E ite(E c, E a, E b) {
        if (a == b) return a;
        if (isC(c)) return c->c ? a : b;
        if (E n = isNot(c)) return ite(n, b, a);
        if (a->w == 1) {
            if (isC(a) && isC(b)) return a->c ? c : lnot(c);
            if (isC(a)) return a->c ? lor(c, b) : land(lnot(c), b);
            if (isC(b)) return b->c ? lor(lnot(c), a) : land(c, a);
        }
        if (a->op == OpIntF && b->op == OpIntF && a->w == b->w)
            return intF(ite(c, a->k[0], b->k[0]), a->w, std::min(a->lo, b->lo), std::max(a->hi, b->hi));
        if (a->op == OpIntF && isC(b)) { int64_t v; if (constIsIntF(b, v)) return intF(ite(c, a->k[0], cst(v, 64)), a->w, std::min(a->lo, v), std::max(a->hi, v)); }
        if (b->op == OpIntF && isC(a)) { int64_t v; if (constIsIntF(a, v)) return intF(ite(c, cst(v, 64), b->k[0]), b->w, std::min(b->lo, v), std::max(b->hi, v)); }
        if (a->op == OpIte && a->k[0] == c) a = a->k[1];
        if (b->op == OpIte && b->k[0] == c) b = b->k[2];
        if (a == b) return a;
        return mk(OpIte, a->w, c, a, b);
    }
    E zext(E a, unsigned w) {
        if (a->w == w) return a;
        if (w < a->w) abort();
        if (isC(a) && w <= 128) return cst128(cv(a), w);
        if (a->op == OpZExt) return zext(a->k[0], w);
        if (two(a) && w <= 128) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
        return mk(OpZExt, w, a);
    }
    E sext(E a, unsigned w) {
        if (a->w == w) return a;
        if (isC(a) && w <= 128) return cst128((u128)sext128(cv(a), a->w), w);
        if (a->op == OpSExt) return sext(a->k[0], w);
        if (a->op == OpZExt) return zext(a->k[0], w);
        if (two(a) && w <= 128) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
        return mk(OpSExt, w, a);
    }
    E extract(E a, unsigned off, unsigned w) {
        if (off == 0 && w == a->w) return a;
        if (off + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
        if (isC(a) && a->w <= 128) return cst128(cv(a) >> off, w);
        switch (a->op) {
            case OpExtract: return extract(a->k[0], off + a->c, w);
            case OpConcat: {
                unsigned lw = a->k[1]->w;
                if (off + w <= lw) return extract(a->k[1], off, w);
                if (off >= lw) return extract(a->k[0], off - lw, w);
                return concat(extract(a->k[0], 0, off + w - lw), extract(a->k[1], off, lw - off));
            }
            case OpZExt: {
                unsigned iw = a->k[0]->w;
                if (off >= iw) return cst(0, w);
                if (off + w <= iw) return extract(a->k[0], off, w);
                return zext(extract(a->k[0], off, iw - off), w);
            }
            case OpSExt: {
                unsigned iw = a->k[0]->w;
                if (off + w <= iw) return extract(a->k[0], off, w);
                if (off < iw) return sext(extract(a->k[0], off, iw - off), w);
                return sext(extract(a->k[0], iw - 1, 1), w);
            }
            case OpIte:
                if (isC(a->k[1]) || isC(a->k[2]) || off % 8 != 0 || w < 8)
                    return ite(a->k[0], extract(a->k[1], off, w), extract(a->k[2], off, w));
                break;
            case OpAnd: case OpOr: case OpXor:
                return bin(a->op, extract(a->k[0], off, w), extract(a->k[1], off, w));
            case OpAdd: case OpSub: case OpMul:
                if (off == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
                break;
            default: break;
        }
        return mk(OpExtract, w, a, nullptr, nullptr, off);
    }
    E concat(E hi, E lo) {
        unsigned w = hi->w + lo->w;
        if (isC(hi) && isC(lo) && w <= 128) return cst128((cv(hi) << lo->w) | cv(lo), w);
        if (isC(hi) && hi->w <= 128 && cv(hi) == 0) return zext(lo, w);
        if (w <= 128 && two(hi) && isC(lo)) return ite(hi->k[0], concat(hi->k[1], lo), concat(hi->k[2], lo));
        if (w <= 128 && two(lo) && isC(hi)) return ite(lo->k[0], concat(hi, lo->k[1]), concat(hi, lo->k[2]));
        if (w <= 128 && hi->w == 1 && lo->w > 1 && isC(lo)) return ite(hi, concat(cst(1, 1), lo), zext(lo, w));
        // adjacent extracts
        auto base = [](E e) { return e->op == OpExtract ? e->k[0] : e; };
        auto off = [](E e) { return e->op == OpExtract ? (unsigned)e->c : 0u; };
        if (hi->op == OpExtract && base(hi) == base(lo) && off(hi) == off(lo) + lo->w && (lo->op == OpExtract))
            return extract(base(hi), off(lo), w);
        if (!isC(lo) && w <= 128) {
            if (hi->op == OpExtract && hi->c >= lo->w && extract(hi->k[0], hi->c - lo->w, lo->w) == lo) return extract(hi->k[0], hi->c - lo->w, w);
            if (hi->op == OpSExt && hi->k[0]->w == 1 && extract(lo, lo->w - 1, 1) == hi->k[0]) return sext(lo, w);
            if (hi->w == 1 && lo->op == OpSExt && extract(lo, lo->w - 1, 1) == hi) return sext(lo, w);
        }
        if (hi->op == OpConcat) { // (x . y) . lo -> x . (y . lo) when y and lo merge
            E y = hi->k[1];
            if (y->op == OpExtract && lo->op == OpExtract && y->k[0] == lo->k[0] && y->c == lo->c + lo->w)
                return concat(hi->k[0], extract(lo->k[0], lo->c, y->w + lo->w));
            return concat(hi->k[0], concat(y, lo));
        }
        if (lo->op == OpConcat) { // hi . (x . y): merge hi with x
            E x = lo->k[0];
            if (hi->op == OpExtract && x->op == OpExtract && hi->k[0] == x->k[0] && hi->c == x->c + x->w)
                return concat(extract(x->k[0], x->c, hi->w + x->w), lo->k[1]);
            if (isC(hi) && isC(x) && hi->w + x->w <= 128) return concat(concat(hi, x), lo->k[1]);
        }
        // ite with the same condition in both halves
        if (hi->op == OpIte && lo->op == OpIte && hi->k[0] == lo->k[0])
            return ite(hi->k[0], concat(hi->k[1], lo->k[1]), concat(hi->k[2], lo->k[2]));
        return mk(OpConcat, w, hi, lo);
    }
    static bool foldBin(Op op, u128 a, u128 b, unsigned w, u128& r) {
        u128 m = mask128(w);
        switch (op) {
            case OpAdd: r = (a + b) & m; return true;
            case OpSub: r = (a - b) & m; return true;
            case OpMul: r = (a * b) & m; return true;
            case OpUDiv: r = b ? a / b : m; return true;
            case OpURem: r = b ? a % b : a; return true;
            case OpSDiv: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) { r = x < 0 ? 1 : m; return true; } if (y == -1) { r = (u128)(-(u128)x) & m; return true; } r = (u128)(x / y) & m; return true; }
            case OpSRem: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) { r = a; return true; } if (y == -1) { r = 0; return true; } r = (u128)(x % y) & m; return true; }
            case OpAnd: r = a & b; return true;
            case OpOr: r = a | b; return true;
            case OpXor: r = a ^ b; return true;
            case OpShl: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
            case OpLShr: r = b >= w ? 0 : a >> (unsigned)b; return true;
            case OpAShr: { unsigned s = b >= w ? w - 1 : (unsigned)b; r = (u128)(sext128(a, w) >> s) & m; return true; }
            case OpEq: r = a == b; return true;
            case OpUlt: r = a < b; return true;
            case OpUle: r = a <= b; return true;
            case OpSlt: r = sext128(a, w) < sext128(b, w); return true;
            case OpSle: r = sext128(a, w) <= sext128(b, w); return true;
            default: return false;
        }
    }
    // ---- IntF -------------------------------------------------------------------------
    static int64_t intFMax(unsigned w) { return w == 64 ? (1ll << 53) : w == 32 ? (1ll << 24) : 2048; }
    E intF(E i64, unsigned w, int64_t lo, int64_t hi) {
        if (isC(i64)) return fconst((double)(int64_t)i64->c, w);
        Expr t; memset((void*)&t, 0, sizeof t);
        t.op = OpIntF; t.w = w; t.k[0] = i64; t.lo = lo; t.hi = hi; t.tainted = i64->tainted;
        return intern(t);
    }
    static uint16_t toHalf(float x) { _Float16 h = (_Float16)x; uint16_t r; memcpy(&r, &h, 2); return r; }
    static float fromHalf(uint16_t x) { _Float16 h; memcpy(&h, &x, 2); return (float)h; }
    E fconst(double d, unsigned w) {
        if (w == 64) { uint64_t u; memcpy(&u, &d, 8); return cst(u, 64); }
        if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return cst(u, 32); }
        return cst(toHalf((float)d), 16);
    }
    static double fval(uint64_t v, unsigned w) {
        if (w == 64) { double d; memcpy(&d, &v, 8); return d; }
        if (w == 32) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; }
        return fromHalf((uint16_t)v);
    }
    bool constIsIntF(E e, int64_t& v) {
        if (!isC(e) || (e->w != 16 && e->w != 32 && e->w != 64)) return false;
        double d = fval(e->c, e->w);
        if (!(std::fabs(d) <= (double)intFMax(e->w)) || d != std::floor(d)) return false;
        v = (int64_t)d; return true;
    }
    bool asIntF(E e, E& i, int64_t& lo, int64_t& hi) {
        if (e->op == OpIntF) { i = e->k[0]; lo = e->lo; hi = e->hi; return true; }
        int64_t v, u;
        if (constIsIntF(e, v)) { i = cst(v, 64); lo = hi = v; return true; }
        if (two(e) && constIsIntF(e->k[1], v) && constIsIntF(e->k[2], u)) { i = ite(e->k[0], cst(v, 64), cst(u, 64)); lo = std::min(u, v); hi = std::max(u, v); return true; }
        return false;
    }

    // ---- polynomial normal form: sums of products compared modulo 2^w ------------------
    typedef std::map<std::vector<uint32_t>, uint64_t> Poly; // sorted atom ids -> coefficient
    struct PolyCtx { unsigned w; std::unordered_map<E, std::shared_ptr<Poly>> memo; size_t budget; std::unordered_map<uint32_t, E> atom; };
    bool exactArith(E e) { // neither operands nor result of this +, -, * leave the signed range of its width
        int64_t a, b, c, d;
        if (!srange(e->k[0], a, b) || !srange(e->k[1], c, d)) return false;
        i128 lo, hi;
        if (e->op == OpAdd) { lo = (i128)a + c; hi = (i128)b + d; }
        else if (e->op == OpSub) { lo = (i128)a - d; hi = (i128)b - c; }
        else { i128 p[4] = {(i128)a * c, (i128)a * d, (i128)b * c, (i128)b * d}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
        int64_t mx = (int64_t)maskw(e->w - 1);
        return lo >= -(i128)mx - 1 && hi <= (i128)mx;
    }
    // polynomial of e sign-extended to pc.w
    std::shared_ptr<Poly> poly(E e, PolyCtx& pc) {
        auto it = pc.memo.find(e); if (it != pc.memo.end()) return it->second;
        auto r = std::make_shared<Poly>(); uint64_t mw = maskw(pc.w);
        auto addTo = [&](Poly& p, const std::vector<uint32_t>& m, uint64_t c) { auto& x = p[m]; x = (x + c) & mw; if (!x) p.erase(m); };
        bool full = e->w == pc.w; int64_t lo, hi;
        if (isC(e)) { uint64_t v = (uint64_t)sext64(e->c, e->w) & mw; if (v) (*r)[{}] = v; }
        else if ((e->op == OpAdd || e->op == OpSub || e->op == OpMul) && (full || exactArith(e))) {
            auto a = poly(e->k[0], pc), b = poly(e->k[1], pc); if (!a || !b) return nullptr;
            if (e->op == OpMul) {
                if (a->size() * b->size() > pc.budget) return nullptr;
                pc.budget -= a->size() * b->size();
                for (auto& x : *a) for (auto& y : *b) { std::vector<uint32_t> m(x.first.size() + y.first.size()); std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), m.begin()); addTo(*r, m, x.second * y.second); }
            } else {
                if (a->size() + b->size() > pc.budget) return nullptr;
                pc.budget -= b->size(); *r = *a;
                for (auto& y : *b) addTo(*r, y.first, e->op == OpAdd ? y.second : -y.second);
            }
        }
        else if (e->op == OpSExt) { r = poly(e->k[0], pc); }
        else if (e->op == OpZExt && srange(e->k[0], lo, hi) && lo >= 0) { r = poly(e->k[0], pc); }
        else if (e->op == OpZExt && e->k[0]->w < pc.w) { E z = zext(e->k[0], pc.w); pc.atom[z->id] = z; (*r)[{z->id}] = 1; }
        else if (e->op == OpExtract && e->c == 0 && e->k[0]->w <= pc.w && srange(e->k[0], lo, hi) && e->w < 64 && lo >= -(1ll << (e->w - 1)) && hi < (1ll << (e->w - 1))) { r = poly(e->k[0], pc); }
        else if (e->op == OpConcat && isC(e->k[1]) && e->k[1]->c == 0 && (full || (srange(e->k[0], lo, hi) && e->k[0]->w < 62))) { // shift by a constant
            auto a = poly(e->k[0], pc); if (!a || e->k[1]->w >= 64) return nullptr;
            if (!full) return nullptr;
            // only the low part of the upper operand matters; its sign extension agrees modulo 2^w
            for (auto& x : *a) addTo(*r, x.first, x.second << e->k[1]->w);
        }
        else { E z = sext(e, pc.w); pc.atom[z->id] = z; (*r)[{z->id}] = 1; }
        if (r) pc.memo[e] = r;
        return r;
    }
    E build(const Poly& p, PolyCtx& pc) {
        E sum = nullptr;
        for (auto& t : p) {
            E m = cst(t.second, pc.w);
            for (size_t i = t.first.size(); i--;) m = bin(OpMul, pc.atom[t.first[i]], m);
            sum = sum ? bin(OpAdd, sum, m) : m;
        }
        return sum ? sum : cst(0, pc.w);
    }
    static int64_t al_div(int64_t a, int64_t q) { return a / q; }
    // e / q when every coefficient of e is a multiple of q and nothing can wrap around
    E exactQuotient(E e, int64_t q) {
        if (!usePoly || e->w != 64) return nullptr;
        PolyCtx pc{64, {}, 20000, {}};
        auto p = poly(e, pc); if (!p) return nullptr;
        Poly r; double bound = 0;
        for (auto& t : *p) {
            int64_t c = (int64_t)t.second; if (c % q) return nullptr;
            double b = std::fabs((double)c);
            for (auto a : t.first) { int64_t lo, hi; if (!srange(pc.atom[a], lo, hi)) return nullptr; b *= std::max(std::fabs((double)lo), std::fabs((double)hi)); }
            bound += b; r[t.first] = (uint64_t)(c / q);
        }
        if (bound > 4e15) return nullptr;
        return build(r, pc);
    }
    E canon(E e) { // same value, canonical up to the ring laws
        E k = e; while (k->op == OpSExt || k->op == OpZExt) k = k->k[0];
        if (e->w > 64 || (k->op != OpAdd && k->op != OpSub && k->op != OpMul)) return e;
        PolyCtx pc{e->w, {}, 20000, {}};
        auto p = poly(e, pc); return p ? build(*p, pc) : e;
    }
    // 1 equal, 0 different everywhere, -1 not decided; rest: an equivalent, smaller condition
    int polyEq(E a, E b, E* rest) {
        auto ar = [](E e) { return e->op == OpAdd || e->op == OpSub || e->op == OpMul; };
        auto core = [&](E e) { while (e->op == OpSExt || e->op == OpZExt) e = e->k[0]; return e; };
        if (!usePoly || a->w > 64 || a->w < 8 || !ar(core(a)) || !ar(core(b))) return -1;
        PolyCtx pc{a->w, {}, 200000, {}};
        auto x = poly(a, pc), y = poly(b, pc); if (!x || !y) return -1;
        if (*x == *y) return 1;
        Poly d = *x; for (auto& t : *y) { auto& v = d[t.first]; v = (v - t.second) & maskw(a->w); if (!v) d.erase(t.first); }
        if (d.empty()) return 1;
        if (d.size() == 1 && d.begin()->first.empty()) return 0;
        if (2 * d.size() < x->size() + y->size()) { uint64_t c = 0; auto it = d.find({}); if (it != d.end()) { c = -it->second; d.erase(it); } *rest = mk(OpEq, 1, build(d, pc), cst(c, a->w)); }
        return -1;
    }
    // a < b (signed) of sums and products, as the sign of their canonical difference in few bits
    E polyLess(E a, E b) {
        auto ar = [](E e) { while (e->op == OpSExt || e->op == OpZExt) e = e->k[0]; return e->op == OpAdd || e->op == OpSub || e->op == OpMul; };
        if (!usePoly || (a->w != 64 && a->w != 32) || (!ar(a) && !ar(b))) return nullptr;
        int64_t al, ah, bl, bh; if (!srange(a, al, ah) || !srange(b, bl, bh)) return nullptr;
        i128 dl = (i128)al - bh, dh = (i128)ah - bl, lim = (i128)1 << (a->w - 1);
        if (dl >= 0) return fls();
        if (dh < 0) return tru();
        if (dl < -lim || dh >= lim) return nullptr;
        PolyCtx pc{a->w, {}, 3000, {}};
        auto x = poly(a, pc), y = poly(b, pc); if (!x || !y) return nullptr;
        Poly d = *x; for (auto& t : *y) { auto& v = d[t.first]; v = (v - t.second) & maskw(a->w); if (!v) d.erase(t.first); }
        if (d.empty()) return fls();
        if (d.size() > 64) return nullptr;
        bool flip = false; uint64_t g = 0; double bound = 0; bool known = true;
        for (auto& t : d) {
            int64_t c = sext64(t.second, a->w); if (c == INT64_MIN) return nullptr;
            g = std::gcd(g, (uint64_t)std::llabs(c));
            double m = std::fabs((double)c);
            for (auto at : t.first) { int64_t lo, hi; if (!srange(pc.atom[at], lo, hi)) { known = false; break; } m *= std::max(std::fabs((double)lo), std::fabs((double)hi)); }
            bound += m;
        }
        if (!known || bound > (a->w == 64 ? 4e18 : 1e9)) { bound = std::max(std::fabs((double)dl), std::fabs((double)dh)); if (bound > 4e18) return nullptr; g = 1; } // modular: no division
        if (sext64(d.rbegin()->second, a->w) < 0) flip = true;
        unsigned k = 2; while ((double)(1ull << (k - 1)) <= bound / g + 1) ++k;
        if (k > a->w) return nullptr;
        Poly q; for (auto& t : d) { int64_t c = sext64(t.second, a->w) / (int64_t)g; q[t.first] = (uint64_t)(flip ? -c : c) & maskw(k); }
        // the terms themselves in k bits: only their low bits matter
        E sum = nullptr;
        for (auto& t : q) { E m = cst(t.second, k); for (size_t i = t.first.size(); i--;) { E at = pc.atom[t.first[i]]; m = bin(OpMul, k <= at->w ? extract(at, 0, k) : sext(at, k), m); } sum = sum ? bin(OpAdd, sum, m) : m; }
        return flip ? mk(OpSlt, 1, cst(0, k), sum) : mk(OpSlt, 1, sum, cst(0, k));
    }
    // conservative interval of an integer expression read as signed
    bool srange(E e, int64_t& lo, int64_t& hi, int d = 0) {
        if (e->w > 64 || d > 4000) return false;
        if (isC(e)) { lo = hi = sext64(e->c, e->w); return true; }
        if (e->srState) { lo = e->srLo; hi = e->srHi; return e->srState == 1; }
        bool r = srange1(e, lo, hi, d);
        e->srState = r ? 1 : 2; e->srLo = lo; e->srHi = hi;
        return r;
    }
    bool srange1(E e, int64_t& lo, int64_t& hi, int d) {
        lo = hi = 0;
        switch (e->op) {
            case OpZExt: {
                unsigned iw = e->k[0]->w; if (iw >= 63) return false;
                lo = 0; hi = (int64_t)maskw(iw); 
                int64_t l2, h2; if (srange(e->k[0], l2, h2, d + 1) && l2 >= 0) { lo = l2; hi = h2; }
                return true; }
            case OpSExt: { unsigned iw = e->k[0]->w; if (iw > 62) return false; lo = -(int64_t)(1ull << (iw - 1)); hi = (int64_t)(1ull << (iw - 1)) - 1;
                int64_t l2, h2; if (srange(e->k[0], l2, h2, d + 1)) { lo = l2; hi = h2; } return true; }
            case OpIte: { int64_t l2, h2, l3, h3; if (!srange(e->k[1], l2, h2, d + 1) || !srange(e->k[2], l3, h3, d + 1)) return false; lo = std::min(l2, l3); hi = std::max(h2, h3); return true; }
            case OpAdd: case OpSub: case OpMul: {
                int64_t l2, h2, l3, h3; if (!srange(e->k[0], l2, h2, d + 1) || !srange(e->k[1], l3, h3, d + 1)) break;
                i128 a, b;
                if (e->op == OpAdd) { a = (i128)l2 + l3; b = (i128)h2 + h3; }
                else if (e->op == OpSub) { a = (i128)l2 - h3; b = (i128)h2 - l3; }
                else { i128 p[4] = {(i128)l2 * l3, (i128)l2 * h3, (i128)h2 * l3, (i128)h2 * h3}; a = *std::min_element(p, p + 4); b = *std::max_element(p, p + 4); if (e->k[0] == e->k[1]) a = std::max(a, (i128)0); }
                int64_t mx = (int64_t)maskw(e->w - 1);
                if (a < -(i128)mx - 1 || b > mx) break;
                lo = (int64_t)a; hi = (int64_t)b; return true; }
            case OpUDiv: { int64_t l2, h2, l3, h3; if (!srange(e->k[0], l2, h2, d + 1) || !srange(e->k[1], l3, h3, d + 1) || l2 < 0 || l3 < 1) break; lo = l2 / h3; hi = h2 / l3; return true; }
            case OpURem: { int64_t l2, h2, l3, h3; if (!srange(e->k[1], l3, h3, d + 1) || l3 < 1) break; lo = 0; hi = h3 - 1; if (srange(e->k[0], l2, h2, d + 1) && l2 >= 0) hi = std::min(hi, h2); return true; }
            case OpAnd: { int64_t l2, h2; if (isC(e->k[1]) && sext64(e->k[1]->c, e->w) >= 0) { lo = 0; hi = (int64_t)e->k[1]->c; if (srange(e->k[0], l2, h2, d + 1) && l2 >= 0) hi = std::min(hi, h2); return true; } break; }
            case OpLShr: { int64_t l2, h2; if (isC(e->k[1]) && e->k[1]->c < e->w) { if (srange(e->k[0], l2, h2, d + 1) && l2 >= 0) { lo = l2 >> e->k[1]->c; hi = h2 >> e->k[1]->c; return true; } if (e->k[1]->c >= 2) { lo = 0; hi = (int64_t)(maskw(e->w) >> e->k[1]->c); return true; } } break; }
            default: break;
        }
        if (e->w >= 63) return false;
        lo = -(int64_t)(1ull << (e->w - 1)); hi = (int64_t)(1ull << (e->w - 1)) - 1; return true;
    }
    E intToF(E x, unsigned w, bool isSigned) {
        if (isC(x) && x->w <= 64) {
            if (w == 32) { float f = isSigned ? (float)sext64(x->c, x->w) : (float)x->c; uint32_t u; memcpy(&u, &f, 4); return cst(u, 32); }
            double d = isSigned ? (double)sext64(x->c, x->w) : (double)x->c; return fconst(d, w);
        }
        if (two(x) && x->w <= 64) return ite(x->k[0], intToF(x->k[1], w, isSigned), intToF(x->k[2], w, isSigned));
        int64_t lo, hi;
        E xi = isSigned ? sext(x, 64) : zext(x, 64);
        if (x->w <= 64 && srange(xi, lo, hi) && lo >= -intFMax(w) && hi <= intFMax(w) && (isSigned || x->w < 64)) return intF(xi, w, lo, hi);
        return mk(isSigned ? OpSIToF : OpUIToF, w, x);
    }
    E fbin(Op op, E a, E b) {
        unsigned w = a->w;
        if (isC(a) && isC(b)) {
            double x = fval(a->c, w), y = fval(b->c, w), r = 0;
            if (w == 32) { float p = (float)x, q = (float)y, s = 0; switch (op) { case OpFAdd: s = p + q; break; case OpFSub: s = p - q; break; case OpFMul: s = p * q; break; case OpFDiv: s = p / q; break; case OpFRem: s = fmodf(p, q); break; default: abort(); } return fconst(s, 32); }
            switch (op) { case OpFAdd: r = x + y; break; case OpFSub: r = x - y; break; case OpFMul: r = x * y; break; case OpFDiv: r = x / y; break; case OpFRem: r = fmod(x, y); break; default: abort(); }
            return fconst(r, w);
        }
        E ia, ib; int64_t al, ah, bl, bh;
        if (op != OpFDiv && op != OpFRem && asIntF(a, ia, al, ah) && asIntF(b, ib, bl, bh)) {
            i128 lo, hi; E r;
            if (op == OpFAdd) { lo = (i128)al + bl; hi = (i128)ah + bh; r = bin(OpAdd, ia, ib); }
            else if (op == OpFSub) { lo = (i128)al - bh; hi = (i128)ah - bl; r = bin(OpSub, ia, ib); }
            else { i128 p[4] = {(i128)al * bl, (i128)al * bh, (i128)ah * bl, (i128)ah * bh}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); if (ia == ib) lo = std::max(lo, (i128)0); r = bin(OpMul, ia, ib); }
            if (lo >= -(i128)intFMax(w) && hi <= (i128)intFMax(w)) return intF(r, w, (int64_t)lo, (int64_t)hi);
        }
        int64_t dv;
        if (op == OpFDiv && a->op == OpIntF && constIsIntF(b, dv) && dv != 0) {
            if (E q = exactQuotient(a->k[0], dv)) return intF(q, w, dv > 0 ? al_div(a->lo, dv) : al_div(a->hi, dv), dv > 0 ? al_div(a->hi, dv) : al_div(a->lo, dv));
        }
        if (op == OpFDiv && asIntF(a, ia, al, ah) && asIntF(b, ib, bl, bh) && (i128)(ah - al + 1) * (bh - bl + 1) <= 700) {
            // small operand domains: the quotient as a table of constants
            ia = canon(ia); ib = canon(ib);
            return tabl(ib, bl, bh, [&](int64_t q) { return tabl(ia, al, ah, [&](int64_t p) { return fbin(OpFDiv, fconst((double)p, w), fconst((double)q, w)); }); });
        }
        if (op == OpFDiv && a->op == OpIntF) a = mk(OpSIToF, w, canon(a->k[0]));
        a = unIntF(a); b = unIntF(b);
        if ((op == OpFMul || op == OpFAdd) && a->id > b->id) std::swap(a, b);
        return mk(op, w, a, b);
    }
    template <class F> E tabl(E i, int64_t lo, int64_t hi, F f) {
        if (lo == hi) return f(lo);
        int64_t mid = lo + (hi - lo) / 2;
        E l = tabl(i, lo, mid, f), r = tabl(i, mid + 1, hi, f);
        return ite(bin(OpSle, i, cst((uint64_t)mid, i->w)), l, r);
    }
    E fma(E a, E b, E c) {
        unsigned w = a->w;
        if (isC(a) && isC(b) && isC(c)) { if (w == 32) return fconst(fmaf((float)fval(a->c, w), (float)fval(b->c, w), (float)fval(c->c, w)), w); return fconst(::fma(fval(a->c, w), fval(b->c, w), fval(c->c, w)), w); }
        E ia, ib, ic; int64_t al, ah, bl, bh, cl, ch;
        if (asIntF(a, ia, al, ah) && asIntF(b, ib, bl, bh) && asIntF(c, ic, cl, ch)) {
            i128 p[4] = {(i128)al * bl, (i128)al * bh, (i128)ah * bl, (i128)ah * bh};
            i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
            if (ia == ib) lo = std::max(lo, (i128)0);
            lo += cl; hi += ch;
            if (lo >= -(i128)intFMax(w) && hi <= (i128)intFMax(w)) return intF(bin(OpAdd, bin(OpMul, ia, ib), ic), w, (int64_t)lo, (int64_t)hi);
        }
        return mk(OpFMA, w, unIntF(a), unIntF(b), unIntF(c));
    }
    E unIntF(E e) { // back to a real IEEE conversion (sign of zero: +0)
        if (e->op == OpIntF) return mk(OpSIToF, e->w, e->k[0]);
        return e;
    }
    E fneg(E a) {
        E i; int64_t lo, hi;
        if (a->op == OpIntF && asIntF(a, i, lo, hi)) return intF(neg(i), a->w, -hi, -lo);
        return bin(OpXor, a, cst128((u128)1 << (a->w - 1), a->w));
    }
    E fabs_(E a) {
        E i; int64_t lo, hi;
        if (a->op == OpIntF && asIntF(a, i, lo, hi)) return intF(ite(bin(OpSlt, i, cst(0, 64)), neg(i), i), a->w, 0, std::max(std::abs(lo), std::abs(hi)));
        return bin(OpAnd, a, cst128(mask128(a->w - 1), a->w));
    }
    E fext(E a, unsigned w) {
        if (isC(a)) return fconst(fval(a->c, a->w), w);
        if (a->op == OpIntF) return intF(a->k[0], w, a->lo, a->hi);
        if (two(a)) return ite(a->k[0], fext(a->k[1], w), fext(a->k[2], w));
        return mk(OpFExt, w, a);
    }
    E ftrunc(E a, unsigned w) {
        if (isC(a)) { if (w == 16 && a->w == 64) { _Float16 h = (_Float16)fval(a->c, 64); uint16_t r; memcpy(&r, &h, 2); return cst(r, 16); } return fconst(fval(a->c, a->w), w); }
        if (a->op == OpIntF && a->lo >= -intFMax(w) && a->hi <= intFMax(w)) return intF(a->k[0], w, a->lo, a->hi);
        if (two(a)) return ite(a->k[0], ftrunc(a->k[1], w), ftrunc(a->k[2], w));
        if (a->op == OpFExt && a->k[0]->w == w) return a->k[0]; // NaN payloads aside
        return mk(OpFTrunc, w, unIntF(a));
    }
    E fToInt(E a, unsigned w, bool sgn) {
        if (two(a)) return ite(a->k[0], fToInt(a->k[1], w, sgn), fToInt(a->k[2], w, sgn));
        if (sgn && w == 32 && isC(a)) { double d = fval(a->c, a->w); if (!(d > -2147483649.0 && d < 2147483648.0)) return cst(1ull << 31, 32); }
        if (sgn && (w == 32 || w == 64) && !isC(a) && a->op != OpIntF && a->w >= 32) {
            // out of range yields the "integer indefinite" value of the target machine
            double b = w == 32 ? 2147483648.0 : 9223372036854775808.0;
            double lo = a->w == 64 && w == 32 ? -2147483649.0 : -b;
            E in = land(lnot(isNaN(a)), land(flt(a, fconst(b, a->w)), lo == -b ? lnot(flt(a, fconst(lo, a->w))) : flt(fconst(lo, a->w), a)));
            return ite(in, mk(OpFToSI, w, a), cst(1ull << (w - 1), w));
        }
        if (isC(a)) { double d = fval(a->c, a->w); if (sgn) { if (!(d > -9.3e18 && d < 9.3e18)) return cst(1ull << (w - 1), w); return cst((uint64_t)(int64_t)d, w); } if (!(d > -1 && d < 1.85e19)) return cst(~0ull, w); return cst((uint64_t)d, w); }
        if (a->op == OpIntF) return w == 64 ? a->k[0] : extract(a->k[0], 0, w);
        return mk(sgn ? OpFToSI : OpFToUI, w, a);
    }
    E fsqrt(E a) {
        if (isC(a)) { if (a->w == 32) return fconst(sqrtf((float)fval(a->c, 32)), 32); return fconst(sqrt(fval(a->c, a->w)), a->w); }
        if (a->op == OpIntF) return mk(OpFSqrt, a->w, mk(OpSIToF, a->w, canon(a->k[0])));
        return mk(OpFSqrt, a->w, a);
    }
    E fround(E a, int mode) { // 0 floor 1 ceil 2 trunc 3 rint(even) 4 round(away)
        if (isC(a)) { double d = fval(a->c, a->w); d = mode == 0 ? floor(d) : mode == 1 ? ceil(d) : mode == 2 ? ::trunc(d) : mode == 3 ? rint(d) : ::round(d); return fconst(d, a->w); }
        if (a->op == OpIntF) return a;
        return mk(OpFRound, a->w, a, 0, 0, mode);
    }
    E isNaN(E a) {
        if (a->op == OpIntF) return fls();
        unsigned w = a->w; uint64_t inf = w == 64 ? 0x7ff0000000000000ull : w == 32 ? 0x7f800000ull : 0x7c00ull;
        if (isC(a)) return cst((a->c & maskw(w - 1)) > inf, 1);
        return bin(OpUlt, cst(inf, w - 1), extract(a, 0, w - 1));
    }
    // total order key: flips so that unsigned compare is float order, with -0 == +0 handled separately
    E flt(E a, E b) { // ordered less-than (no NaN check)
        E i, j; int64_t al, ah, bl, bh;
        if (asIntF(a, i, al, ah) && asIntF(b, j, bl, bh)) { if (ah < bl) return tru(); if (al >= bh) return fls(); return bin(OpSlt, i, j); }
        if (a->op == OpIntF && isC(b)) { double d = fval(b->c, b->w); if (std::isnan(d)) return fls(); if (d > 9e15) return tru(); if (d < -9e15) return fls(); return bin(OpSlt, a->k[0], cst((int64_t)std::ceil(d), 64)); }
        if (b->op == OpIntF && isC(a)) { double d = fval(a->c, a->w); if (std::isnan(d)) return fls(); if (d > 9e15) return fls(); if (d < -9e15) return tru(); return bin(OpSlt, cst((int64_t)std::floor(d), 64), b->k[0]); }
        if (isC(a) && isC(b)) return cst(fval(a->c, a->w) < fval(b->c, b->w), 1);
        a = unIntF(a); b = unIntF(b);
        unsigned w = a->w;
        E sa = extract(a, w - 1, 1), sb = extract(b, w - 1, 1);
        E ma = extract(a, 0, w - 1), mb = extract(b, 0, w - 1);
        E z = cst(0, w - 1);
        E bothZero = land(eq(ma, z), eq(mb, z));
        E lt = ite(sa, ite(sb, bin(OpUlt, mb, ma), tru()), ite(sb, fls(), bin(OpUlt, ma, mb)));
        return land(lnot(bothZero), lt);
    }
    E feq(E a, E b) {
        E i, j; int64_t al, ah, bl, bh;
        if (asIntF(a, i, al, ah) && asIntF(b, j, bl, bh)) return eq(i, j);
        if ((a->op == OpIntF && isC(b)) || (b->op == OpIntF && isC(a))) return fls();
        if (isC(a) && isC(b)) return cst(fval(a->c, a->w) == fval(b->c, b->w), 1);
        a = unIntF(a); b = unIntF(b);
        unsigned w = a->w;
        E z = cst(0, w - 1);
        E bothZero = land(eq(extract(a, 0, w - 1), z), eq(extract(b, 0, w - 1), z));
        return lor(bothZero, eq(a, b));
    }
    // ---- symbol sets / evaluation --------------------------------------------------------
    const std::vector<uint32_t>* symsOf(E e) {
        static const std::vector<uint32_t> none;
        if (e->syms) return e->syms;
        if (e->op == OpConst) return e->syms = &none;
        if (e->op == OpSym) { auto* v = new std::vector<uint32_t>{(uint32_t)e->c}; return e->syms = v; }
        const std::vector<uint32_t>* acc = &none;
        for (int i = 0; i < 3 && e->k[i]; i++) {
            auto* s = symsOf(e->k[i]);
            if (s == acc || s->empty()) continue;
            if (acc->empty()) { acc = s; continue; }
            if (std::includes(acc->begin(), acc->end(), s->begin(), s->end())) continue;
            if (std::includes(s->begin(), s->end(), acc->begin(), acc->end())) { acc = s; continue; }
            auto* v = new std::vector<uint32_t>();
            std::set_union(acc->begin(), acc->end(), s->begin(), s->end(), std::back_inserter(*v));
            acc = v;
        }
        return e->syms = acc;
    }
    typedef std::vector<u128> Model; // by sym id; missing -> 0
    void newEval() { evGen++; }
    // returns false if not evaluable natively (wide)
    u128 eval(E e, const Model& m) {
        if (e->op == OpConst) return cv(e);
        if (e->evGen == evGen) return ((u128)e->evHi << 64) | e->evLo;
        u128 r = eval1(e, m);
        if (e->w < 128) r &= mask128(e->w);
        e->evGen = evGen; e->evLo = (uint64_t)r; e->evHi = (uint64_t)(r >> 64);
        return r;
    }
    u128 eval1(E e, const Model& m) {
        switch (e->op) {
            case OpSym: return e->c < m.size() ? m[e->c] : 0;
            case OpIte: return eval(e->k[0], m) ? eval(e->k[1], m) : eval(e->k[2], m);
            case OpConcat: return e->w > 128 ? 0 : (eval(e->k[0], m) << e->k[1]->w) | eval(e->k[1], m);
            case OpExtract: return eval(e->k[0], m) >> e->c;
            case OpZExt: return eval(e->k[0], m);
            case OpSExt: return (u128)sext128(eval(e->k[0], m), e->k[0]->w);
            case OpFAdd: case OpFSub: case OpFMul: case OpFDiv: case OpFRem: {
                E r = fbin(e->op, cst128(eval(e->k[0], m), e->w), cst128(eval(e->k[1], m), e->w)); return cv(r); }
            case OpFMA: return cv(fma(cst128(eval(e->k[0], m), e->w), cst128(eval(e->k[1], m), e->w), cst128(eval(e->k[2], m), e->w)));
            case OpFSqrt: return cv(fsqrt(cst128(eval(e->k[0], m), e->w)));
            case OpFExt: return cv(fext(cst128(eval(e->k[0], m), e->k[0]->w), e->w));
            case OpFTrunc: return cv(ftrunc(cst128(eval(e->k[0], m), e->k[0]->w), e->w));
            case OpFToSI: return cv(fToInt(cst128(eval(e->k[0], m), e->k[0]->w), e->w, true));
            case OpFToUI: return cv(fToInt(cst128(eval(e->k[0], m), e->k[0]->w), e->w, false));
            case OpSIToF: return cv(intToF(cst128(eval(e->k[0], m), e->k[0]->w), e->w, true));
            case OpUIToF: return cv(intToF(cst128(eval(e->k[0], m), e->k[0]->w), e->w, false));
            case OpFRound: return cv(fround(cst128(eval(e->k[0], m), e->w), (int)e->c));
            case OpIntF: return cv(intToF(cst128(eval(e->k[0], m), 64), e->w, true));
            default: {
                u128 r = 0; foldBin(e->op, eval(e->k[0], m), eval(e->k[1], m), e->k[0]->w, r); return r; }
        }
    }
    // ---- substitution (used for uninit dependence checks) --------------------------------
    E subst(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& cache) {
        if (e->op == OpConst) return e;
        auto it = m.find(e); if (it != m.end()) return it->second;
        auto ic = cache.find(e); if (ic != cache.end()) return ic->second;
        E a = e->k[0] ? subst(e->k[0], m, cache) : nullptr, b = e->k[1] ? subst(e->k[1], m, cache) : nullptr, c = e->k[2] ? subst(e->k[2], m, cache) : nullptr;
        E r;
        if (a == e->k[0] && b == e->k[1] && c == e->k[2]) r = e;
        else {
            Expr t = *e; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.z3 = nullptr; t.syms = nullptr; t.evGen = 0;
            t.tainted = (a && a->tainted) || (b && b->tainted) || (c && c->tainted);
            r = intern(t);
        }
        cache[e] = r; return r;
    }
    // ---- Z3 ---------------------------------------------------------------------------
    Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(z3) : w == 32 ? Z3_mk_fpa_sort_32(z3) : Z3_mk_fpa_sort_16(z3); }
    Z3_ast toFP(E e) { return Z3_mk_fpa_to_fp_bv(z3, toZ3(e), fsort(e->w)); }
    Z3_ast ite1(Z3_ast b) { return Z3_mk_ite(z3, b, bv1(1), bv1(0)); }
    Z3_ast bv1(int v) { return Z3_mk_unsigned_int(z3, v, Z3_mk_bv_sort(z3, 1)); }
    Z3_ast toBool(E e) {
        switch (e->op) {
            case OpConst: return e->c ? Z3_mk_true(z3) : Z3_mk_false(z3);
            case OpEq: return Z3_mk_eq(z3, toZ3(e->k[0]), toZ3(e->k[1]));
            case OpUlt: return Z3_mk_bvult(z3, toZ3(e->k[0]), toZ3(e->k[1]));
            case OpUle: return Z3_mk_bvule(z3, toZ3(e->k[0]), toZ3(e->k[1]));
            case OpSlt: return Z3_mk_bvslt(z3, toZ3(e->k[0]), toZ3(e->k[1]));
            case OpSle: return Z3_mk_bvsle(z3, toZ3(e->k[0]), toZ3(e->k[1]));
            case OpAnd: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; return Z3_mk_and(z3, 2, a); }
            case OpOr: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; return Z3_mk_or(z3, 2, a); }
            case OpXor: if (E n = isNot(e)) return Z3_mk_not(z3, toBool(n)); return Z3_mk_xor(z3, toBool(e->k[0]), toBool(e->k[1]));
            case OpIte: return Z3_mk_ite(z3, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2]));
            default: return Z3_mk_eq(z3, toZ3(e), bv1(1));
        }
    }
    Z3_ast toZ3(E e) {
        if (e->z3) return e->z3;
        Z3_ast r = toZ31(e);
        Z3_inc_ref(z3, r);
        e->z3 = r;
        return r;
    }
    Z3_ast toZ31(E e) {
        auto A = [&](int i) { return toZ3(e->k[i]); };
        Z3_ast rm = nullptr;
        switch (e->op) {
            case OpConst: {
                if (e->w <= 64) return Z3_mk_unsigned_int64(z3, e->c, Z3_mk_bv_sort(z3, e->w));
                Z3_ast hi = Z3_mk_unsigned_int64(z3, e->c2, Z3_mk_bv_sort(z3, std::min<unsigned>(64, e->w - 64)));
                Z3_ast lo = Z3_mk_unsigned_int64(z3, e->c, Z3_mk_bv_sort(z3, 64));
                return Z3_mk_concat(z3, hi, lo);
            }
            case OpSym: { std::string n = "s" + std::to_string(e->c); return Z3_mk_const(z3, Z3_mk_string_symbol(z3, n.c_str()), Z3_mk_bv_sort(z3, e->w)); }
            case OpAdd: return Z3_mk_bvadd(z3, A(0), A(1));
            case OpSub: return Z3_mk_bvsub(z3, A(0), A(1));
            case OpMul: case OpUDiv: case OpURem: {
                // operands known to be small non-negative numbers: use a narrower circuit
                int64_t l0, h0, l1, h1;
                if (e->w >= 24 && e->w <= 64 && srange(e->k[0], l0, h0) && srange(e->k[1], l1, h1) && l0 >= 0 && l1 >= 0) {
                    u128 m = e->op == OpMul ? (u128)h0 * (u128)h1 : (u128)std::max(h0, h1);
                    m = std::max(m, (u128)std::max(h0, h1));
                    unsigned nb = 1; while (nb < 100 && (m >> nb)) nb++;
                    if (nb + 4 <= e->w) {
                        Z3_ast a = Z3_mk_extract(z3, nb - 1, 0, A(0)), b = Z3_mk_extract(z3, nb - 1, 0, A(1));
                        Z3_ast r = e->op == OpMul ? Z3_mk_bvmul(z3, a, b) : e->op == OpUDiv ? Z3_mk_bvudiv(z3, a, b) : Z3_mk_bvurem(z3, a, b);
                        // division by zero (excluded on every path) would differ between widths
                        if (e->op == OpMul || l1 > 0) return Z3_mk_zero_ext(z3, e->w - nb, r);
                    }
                }
                return e->op == OpMul ? Z3_mk_bvmul(z3, A(0), A(1)) : e->op == OpUDiv ? Z3_mk_bvudiv(z3, A(0), A(1)) : Z3_mk_bvurem(z3, A(0), A(1));
            }
            case OpSDiv: return Z3_mk_bvsdiv(z3, A(0), A(1));
            case OpSRem: return Z3_mk_bvsrem(z3, A(0), A(1));
            case OpAnd: if (e->w == 1) return ite1(toBool(e)); return Z3_mk_bvand(z3, A(0), A(1));
            case OpOr: if (e->w == 1) return ite1(toBool(e)); return Z3_mk_bvor(z3, A(0), A(1));
            case OpXor: if (e->w == 1) return ite1(toBool(e)); return Z3_mk_bvxor(z3, A(0), A(1));
            case OpShl: return Z3_mk_bvshl(z3, A(0), A(1));
            case OpLShr: return Z3_mk_bvlshr(z3, A(0), A(1));
            case OpAShr: return Z3_mk_bvashr(z3, A(0), A(1));
            case OpEq: case OpUlt: case OpUle: case OpSlt: case OpSle: return ite1(toBool(e));
            case OpIte: return Z3_mk_ite(z3, toBool(e->k[0]), A(1), A(2));
            case OpConcat: return Z3_mk_concat(z3, A(0), A(1));
            case OpExtract: return Z3_mk_extract(z3, e->c + e->w - 1, e->c, A(0));
            case OpZExt: return Z3_mk_zero_ext(z3, e->w - e->k[0]->w, A(0));
            case OpSExt: return Z3_mk_sign_ext(z3, e->w - e->k[0]->w, A(0));
            default: break;
        }
        rm = Z3_mk_fpa_rne(z3);
        Z3_ast f = nullptr;
        switch (e->op) {
            case OpFAdd: f = Z3_mk_fpa_add(z3, rm, toFP(e->k[0]), toFP(e->k[1])); break;
            case OpFSub: f = Z3_mk_fpa_sub(z3, rm, toFP(e->k[0]), toFP(e->k[1])); break;
            case OpFMul: f = Z3_mk_fpa_mul(z3, rm, toFP(e->k[0]), toFP(e->k[1])); break;
            case OpFDiv: f = Z3_mk_fpa_div(z3, rm, toFP(e->k[0]), toFP(e->k[1])); break;
            case OpFRem: f = Z3_mk_fpa_rem(z3, toFP(e->k[0]), toFP(e->k[1])); break;
            case OpFSqrt: f = Z3_mk_fpa_sqrt(z3, rm, toFP(e->k[0])); break;
            case OpFMA: f = Z3_mk_fpa_fma(z3, rm, toFP(e->k[0]), toFP(e->k[1]), toFP(e->k[2])); break;
            case OpFExt: case OpFTrunc: f = Z3_mk_fpa_to_fp_float(z3, rm, toFP(e->k[0]), fsort(e->w)); break;
            case OpSIToF: f = Z3_mk_fpa_to_fp_signed(z3, rm, toZ3(e->k[0]), fsort(e->w)); break;
            case OpUIToF: f = Z3_mk_fpa_to_fp_unsigned(z3, rm, toZ3(e->k[0]), fsort(e->w)); break;
            case OpIntF: f = Z3_mk_fpa_to_fp_signed(z3, rm, toZ3(e->k[0]), fsort(e->w)); break;
            case OpFToSI: return Z3_mk_fpa_to_sbv(z3, Z3_mk_fpa_rtz(z3), toFP(e->k[0]), e->w);
            case OpFToUI: return Z3_mk_fpa_to_ubv(z3, Z3_mk_fpa_rtz(z3), toFP(e->k[0]), e->w);
            case OpFRound: { Z3_ast m = e->c == 0 ? Z3_mk_fpa_rtn(z3) : e->c == 1 ? Z3_mk_fpa_rtp(z3) : e->c == 2 ? Z3_mk_fpa_rtz(z3) : e->c == 3 ? Z3_mk_fpa_rne(z3) : Z3_mk_fpa_rna(z3);
                f = Z3_mk_fpa_round_to_integral(z3, m, toFP(e->k[0])); break; }
            default: fprintf(stderr, "toZ3: op %d\n", e->op); abort();
        }
        return Z3_mk_fpa_to_ieee_bv(z3, f);
    }
};
