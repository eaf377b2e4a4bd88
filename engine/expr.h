// Hash-consed bit-vector expressions, evaluation under a model, and the solver front end.
#pragma once
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint8_t u8;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

enum K : u8 {
    K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
    K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT
};

struct VarSet { std::vector<u32> v; };

struct Expr {
    K k;
    u8 w;
    u32 id;
    Expr *a, *b, *c;
    u128 v; // const value, var index, extract low bit
    VarSet* vars;
    u32 stamp;
    u128 ev;
    Z3_ast bv, bo;
};

struct ExprPool {
    struct H {
        size_t operator()(const Expr* e) const {
            u64 h = e->k * 0x9E3779B97F4A7C15ULL + e->w;
            auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; };
            mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0);
            mix((u64)e->v); mix((u64)(e->v >> 64));
            return h ^ (h >> 29);
        }
    };
    struct Q {
        bool operator()(const Expr* x, const Expr* y) const {
            return x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v;
        }
    };
    std::unordered_set<Expr*, H, Q> set;
    std::vector<Expr*> all;
    u32 nvars = 0;
    u32 stamp = 0;
    Expr* arena = nullptr;
    size_t left = 0;

    Expr* mk(K k, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, u128 v = 0) {
        Expr t;
        t.k = k; t.w = (u8)w; t.a = a; t.b = b; t.c = c; t.v = v;
        auto it = set.find(&t);
        if (it != set.end()) return *it;
        if (!left) { arena = (Expr*)malloc(sizeof(Expr) * 4096); left = 4096; }
        Expr* e = arena++; left--;
        *e = t;
        e->id = (u32)all.size(); e->vars = nullptr; e->stamp = 0; e->ev = 0; e->bv = nullptr; e->bo = nullptr;
        all.push_back(e);
        set.insert(e);
        return e;
    }
    Expr* cst(unsigned w, u128 v) { return mk(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
    Expr* var(unsigned w) { return mk(K_VAR, w, nullptr, nullptr, nullptr, nvars++); }
    // expression variables that two sibling paths create in the same order may be shared
    Expr* varAt(unsigned w, u32 idx) {
        if (idx >= nvars) nvars = idx + 1;
        return mk(K_VAR, w, nullptr, nullptr, nullptr, (u128)idx | ((u128)w << 64));
    }
    static bool isC(Expr* e) { return e->k == K_CONST; }

    static u128 fold(K k, unsigned w, u128 a, u128 b) {
        u128 m = maskw(w);
        switch (k) {
        case K_ADD: return (a + b) & m;
        case K_SUB: return (a - b) & m;
        case K_MUL: return (a * b) & m;
        case K_UDIV: return b ? (a / b) & m : m;
        case K_UREM: return b ? (a % b) & m : a;
        case K_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; return (u128)(y == -1 ? -x : x / y) & m; }
        case K_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; return (u128)(y == -1 ? 0 : x % y) & m; }
        case K_AND: return a & b;
        case K_OR: return a | b;
        case K_XOR: return a ^ b;
        case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
        case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
        case K_ASHR: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
        case K_EQ: return a == b;
        case K_ULT: return a < b;
        case K_ULE: return a <= b;
        case K_SLT: return sextw(a, w) < sextw(b, w);
        case K_SLE: return sextw(a, w) <= sextw(b, w);
        default: abort();
        }
    }
    static bool isCmp(K k) { return k >= K_EQ && k <= K_SLE; }

    Expr* notE(Expr* e) { return bin(K_XOR, e, cst(e->w, maskw(e->w))); }

    Expr* bin(K k, Expr* a, Expr* b) {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return cst(isCmp(k) ? 1 : w, fold(k, w, a->v, b->v));
        bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
        if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b); // constants to the right
        if (isC(b)) {
            u128 v = b->v;
            switch (k) {
            case K_ADD: case K_SUB: case K_OR: case K_XOR: case K_SHL: case K_LSHR: case K_ASHR:
                if (v == 0) return a;
                if (k == K_OR && v == maskw(w)) return b;
                break;
            case K_AND:
                if (v == 0) return b;
                if (v == maskw(w)) return a;
                break;
            case K_MUL: if (v == 0) return b; if (v == 1) return a; break;
            case K_UDIV: if (v == 1) return a; break;
            default: break;
            }
            if (k == K_XOR && a->k == K_XOR && isC(a->b)) return bin(K_XOR, a->a, cst(w, a->b->v ^ v));
            if (k == K_ADD && a->k == K_ADD && isC(a->b)) return bin(K_ADD, a->a, cst(w, a->b->v + v));
            if (k == K_AND && a->k == K_AND && isC(a->b)) return bin(K_AND, a->a, cst(w, a->b->v & v));
            if (k == K_SUB) return bin(K_ADD, a, cst(w, (u128)0 - v));
            if (k == K_XOR && w == 1 && v == 1) {
                if (a->k == K_ULT) return bin(K_ULE, a->b, a->a);
                if (a->k == K_ULE) return bin(K_ULT, a->b, a->a);
                if (a->k == K_SLT) return bin(K_SLE, a->b, a->a);
                if (a->k == K_SLE) return bin(K_SLT, a->b, a->a);
            }
            if (k == K_EQ) {
                if (w == 1) return v ? a : notE(a);
                if (a->k == K_ZEXT) {
                    if (v >> a->a->w) return cst(1, 0);
                    return bin(K_EQ, a->a, cst(a->a->w, v));
                }
                if (a->k == K_CONCAT) {
                    Expr* l = bin(K_EQ, a->b, cst(a->b->w, v));
                    Expr* h = bin(K_EQ, a->a, cst(a->a->w, v >> a->b->w));
                    return bin(K_AND, h, l);
                }
                if (a->k == K_ITE && isC(a->b) && isC(a->c)) {
                    bool x = a->b->v == v, y = a->c->v == v;
                    if (x && y) return cst(1, 1);
                    if (!x && !y) return cst(1, 0);
                    return x ? a->a : notE(a->a);
                }
                if (a->k == K_ITE && (isC(a->b) || isC(a->c)))
                    return ite(a->a, bin(K_EQ, a->b, b), bin(K_EQ, a->c, b));
                if (a->k == K_XOR && isC(a->b)) return bin(K_EQ, a->a, cst(w, a->b->v ^ v));
                if (a->k == K_ADD && isC(a->b)) return bin(K_EQ, a->a, cst(w, v - a->b->v));
            }
            if ((k == K_ULT || k == K_ULE || k == K_SLT || k == K_SLE) && a->k == K_ITE && isC(a->b) && isC(a->c))
                return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            if (k == K_ULT && v == 0) return cst(1, 0);
            if (k == K_ULT && v == 1) return bin(K_EQ, a, cst(w, 0));
            if (k == K_ULE && v == maskw(w)) return cst(1, 1);
            if ((k == K_ULT || k == K_ULE) && a->k == K_ZEXT) {
                if (v >> a->a->w) return cst(1, 1);
                return bin(k, a->a, cst(a->a->w, v));
            }
            if ((k == K_SLT || k == K_SLE) && a->k == K_ZEXT && w > a->a->w) {
                if (sextw(v, w) < 0) return cst(1, 0);
                return bin(k == K_SLT ? K_ULT : K_ULE, a, b);
            }
            if (k == K_SHL && v < w) return concat(extract(a, (unsigned)(w - 1 - v), 0), cst((unsigned)v, 0));
            if (k == K_SHL) return cst(w, 0);
            if (k == K_LSHR && v < w) return zext(extract(a, w - 1, (unsigned)v), w);
            if (k == K_LSHR) return cst(w, 0);
            if (k == K_AND && v != 0) {
                // a contiguous mask keeps a slice
                u128 t = v; unsigned lo = 0;
                while (!(t & 1)) { t >>= 1; lo++; }
                if ((t & (t + 1)) == 0) {
                    unsigned len = 0; while (t) { t >>= 1; len++; }
                    Expr* s = extract(a, lo + len - 1, lo);
                    if (lo) s = concat(s, cst(lo, 0));
                    return zext(s, w);
                }
                // mask with one hole of zeros at any place: x & ~(mask)
                u128 z = ~v & maskw(w);
                unsigned zl = 0; u128 zt = z;
                while (zt && !(zt & 1)) { zt >>= 1; zl++; }
                if ((zt & (zt + 1)) == 0) {
                    unsigned len = 0; while (zt) { zt >>= 1; len++; }
                    Expr* r = cst(len, 0);
                    if (zl + len < w) r = concat(extract(a, w - 1, zl + len), r);
                    if (zl) r = concat(r, extract(a, zl - 1, 0));
                    return r;
                }
            }
            if (k == K_OR || k == K_XOR || k == K_AND) {
                if (a->k == K_CONCAT) {
                    unsigned lw = a->b->w;
                    return concat(bin(k, a->a, cst(a->a->w, v >> lw)), bin(k, a->b, cst(lw, v)));
                }
                if (a->k == K_ZEXT && k != K_AND) {
                    unsigned lw = a->a->w;
                    return concat(cst(w - lw, v >> lw), bin(k, a->a, cst(lw, v)));
                }
            }
        }
        if (isC(a)) {
            if ((k == K_SHL || k == K_LSHR || k == K_UDIV || k == K_UREM) && a->v == 0) return a;
            if (k == K_ULE && a->v == 0) return cst(1, 1);
            if (k == K_ULT && a->v == maskw(w)) return cst(1, 0);
            if ((k == K_ULT || k == K_ULE) && b->k == K_ZEXT) {
                if (a->v >> b->a->w) return cst(1, 0);
                return bin(k, cst(b->a->w, a->v), b->a);
            }
            if ((k == K_ULT || k == K_ULE || k == K_SLT || k == K_SLE) && b->k == K_ITE && isC(b->b) && isC(b->c))
                return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        }
        if (a == b) {
            switch (k) {
            case K_SUB: case K_XOR: return cst(w, 0);
            case K_AND: case K_OR: return a;
            case K_EQ: case K_ULE: case K_SLE: return cst(1, 1);
            case K_ULT: case K_SLT: return cst(1, 0);
            default: break;
            }
        }
        if (k == K_EQ && a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(K_EQ, a->a, b->a);
        if ((k == K_ULT || k == K_ULE) && a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(k, a->a, b->a);
        if ((k == K_OR || k == K_AND || k == K_XOR) && a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w)
            return concat(bin(k, a->a, b->a), bin(k, a->b, b->b));
        if (k == K_OR && (a->k == K_CONCAT || b->k == K_CONCAT || (a->k == K_ZEXT && b->k == K_ZEXT))) {
            Expr *x = a, *y = b;
            if (x->k != K_CONCAT) std::swap(x, y);
            if (x->k == K_CONCAT && y->k == K_ZEXT) {
                unsigned lw = x->b->w;
                if (y->a->w <= lw) return concat(x->a, bin(K_OR, x->b, zext(y->a, lw)));
                return concat(bin(K_OR, x->a, extract(y, w - 1, lw)), bin(K_OR, x->b, extract(y, lw - 1, 0)));
            }
            if (x->k == K_ZEXT && y->k == K_ZEXT) {
                unsigned m = std::max(x->a->w, y->a->w);
                if (m < w) return zext(bin(K_OR, zext(x->a, m), zext(y->a, m)), w);
            }
        }
        return mk(k, isCmp(k) ? 1 : w, a, b);
    }
    Expr* ite(Expr* c, Expr* a, Expr* b) {
        if (isC(c)) return c->v ? a : b;
        if (a == b) return a;
        if (a->w == 1 && isC(a) && isC(b)) return a->v ? c : notE(c);
        if (a->w == 1) {
            if (isC(a)) return a->v ? bin(K_OR, c, b) : bin(K_AND, notE(c), b);
            if (isC(b)) return b->v ? bin(K_OR, notE(c), a) : bin(K_AND, c, a);
        }
        return mk(K_ITE, a->w, c, a, b);
    }
    Expr* zext(Expr* e, unsigned w) {
        if (e->w == w) return e;
        if (isC(e)) return cst(w, e->v);
        if (e->k == K_ZEXT) return zext(e->a, w);
        return mk(K_ZEXT, w, e);
    }
    Expr* sext(Expr* e, unsigned w) {
        if (e->w == w) return e;
        if (isC(e)) return cst(w, (u128)sextw(e->v, e->w));
        if (e->k == K_ZEXT) return zext(e->a, w);
        return mk(K_SEXT, w, e);
    }
    Expr* extract(Expr* e, unsigned hi, unsigned lo) {
        unsigned w = hi - lo + 1;
        if (w == e->w) return e;
        if (isC(e)) return cst(w, e->v >> lo);
        switch (e->k) {
        case K_EXTRACT: return extract(e->a, hi + (unsigned)e->v, lo + (unsigned)e->v);
        case K_CONCAT: {
            unsigned lw = e->b->w;
            if (hi < lw) return extract(e->b, hi, lo);
            if (lo >= lw) return extract(e->a, hi - lw, lo - lw);
            return concat(extract(e->a, hi - lw, 0), extract(e->b, lw - 1, lo));
        }
        case K_ZEXT: {
            unsigned iw = e->a->w;
            if (lo >= iw) return cst(w, 0);
            if (hi < iw) return extract(e->a, hi, lo);
            return zext(extract(e->a, iw - 1, lo), w);
        }
        case K_SEXT:
            if (hi < e->a->w) return extract(e->a, hi, lo);
            break;
        case K_AND: case K_OR: case K_XOR:
            return bin(e->k, extract(e->a, hi, lo), extract(e->b, hi, lo));
        case K_ITE:
            return ite(e->a, extract(e->b, hi, lo), extract(e->c, hi, lo));
        case K_ADD:
            if (lo == 0) return bin(K_ADD, extract(e->a, hi, 0), extract(e->b, hi, 0));
            break;
        default: break;
        }
        return mk(K_EXTRACT, w, e, nullptr, nullptr, lo);
    }
    Expr* concat(Expr* h, Expr* l) {
        unsigned w = h->w + l->w;
        if (isC(h) && isC(l)) return cst(w, (h->v << l->w) | l->v);
        if (isC(h) && h->v == 0) return zext(l, w);
        if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && (unsigned)h->v == (unsigned)l->v + l->w)
            return extract(h->a, (unsigned)l->v + w - 1, (unsigned)l->v);
        if (h->k == K_EXTRACT && h->a == l && (unsigned)h->v == l->w) return extract(l, w - 1, 0);
        // right-assoc merge: concat(x, concat(y, z)) with x,y adjacent
        if (l->k == K_CONCAT && h->k == K_EXTRACT && l->a->k == K_EXTRACT && h->a == l->a->a &&
            (unsigned)h->v == (unsigned)l->a->v + l->a->w)
            return concat(extract(h->a, (unsigned)l->a->v + l->a->w + h->w - 1, (unsigned)l->a->v), l->b);
        if (l->k == K_CONCAT && isC(h) && isC(l->a)) return concat(cst(h->w + l->a->w, (h->v << l->a->w) | l->a->v), l->b);
        if (h->k == K_ITE && l->k == K_ITE && h->a == l->a) return ite(h->a, concat(h->b, l->b), concat(h->c, l->c));
        if (h->k == K_ZEXT) { // keep zero high part outermost
            return zext(concat(h->a, l), w);
        }
        return mk(K_CONCAT, w, h, l);
    }

    // ---- evaluation -------------------------------------------------------------------
    u128 evalRec(Expr* e, const std::vector<u128>& m) {
        if (e->k == K_CONST) return e->v;
        if (e->stamp == stamp) return e->ev;
        u128 r;
        switch (e->k) {
        case K_VAR: { u32 i = (u32)e->v; r = i < m.size() ? m[i] & maskw(e->w) : 0; break; }
        case K_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
        case K_ZEXT: r = evalRec(e->a, m); break;
        case K_SEXT: r = (u128)sextw(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
        case K_EXTRACT: r = (evalRec(e->a, m) >> (unsigned)e->v) & maskw(e->w); break;
        case K_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
        default: r = fold(e->k, e->a->w, evalRec(e->a, m), evalRec(e->b, m)); break;
        }
        e->stamp = stamp; e->ev = r;
        return r;
    }
    u128 eval(Expr* e, const std::vector<u128>& m) { ++stamp; return evalRec(e, m); }

    VarSet* vars(Expr* e) {
        if (e->vars) return e->vars;
        static VarSet* emptySet = new VarSet;
        if (e->k == K_CONST) return e->vars = emptySet;
        if (e->k == K_VAR) { auto* s = new VarSet; s->v.push_back((u32)e->v); return e->vars = s; }
        VarSet* r = vars(e->a);
        for (Expr* x : {e->b, e->c})
            if (x) {
                VarSet* o = vars(x);
                if (o == r || o->v.empty()) continue;
                if (r->v.empty()) { r = o; continue; }
                if (std::includes(r->v.begin(), r->v.end(), o->v.begin(), o->v.end())) continue;
                if (std::includes(o->v.begin(), o->v.end(), r->v.begin(), r->v.end())) { r = o; continue; }
                auto* n = new VarSet;
                std::set_union(r->v.begin(), r->v.end(), o->v.begin(), o->v.end(), std::back_inserter(n->v));
                r = n;
            }
        return e->vars = r;
    }
};

struct SolverStats { u64 queries = 0, cached = 0, sat = 0, unsat = 0, unknown = 0, usec = 0; };

struct Solver {
    ExprPool& P;
    Z3_context ctx;
    Z3_solver sol;
    SolverStats st;
    std::vector<Z3_ast> varAst;   // by (index); width in key
    struct CacheEnt { bool sat; std::vector<std::pair<u32, u128>> model; };
    std::unordered_map<std::string, CacheEnt> cache;
    unsigned timeoutMs = 120000;

    explicit Solver(ExprPool& p) : P(p) { open(); }
    void open() {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
            fprintf(stderr, "symx: z3 error %s\n", Z3_get_error_msg(c, e));
            _Exit(99);
        });
        sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, sol);
        Z3_params pr = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, pr);
        Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(ctx, sol, pr);
        Z3_params_dec_ref(ctx, pr);
    }
    Z3_ast num(unsigned w, u128 v) {
        Z3_ast r;
        if (w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
        else {
            Z3_ast h = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
            Z3_inc_ref(ctx, h);
            Z3_ast l = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
            Z3_inc_ref(ctx, l);
            r = Z3_mk_concat(ctx, h, l);
        }
        return r;
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast toBool(Expr* e) {
        if (e->bo) return e->bo;
        Z3_ast r;
        switch (e->k) {
        case K_CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case K_EQ: {
            if (e->a->w == 1) r = Z3_mk_iff(ctx, toBool(e->a), toBool(e->b));
            else r = Z3_mk_eq(ctx, toBV(e->a), toBV(e->b));
            break;
        }
        case K_ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
        case K_ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
        case K_AND: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case K_OR: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case K_XOR:
            if (P.isC(e->b)) r = e->b->v ? Z3_mk_not(ctx, toBool(e->a)) : toBool(e->a);
            else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b));
            break;
        case K_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
        default: r = Z3_mk_eq(ctx, toBV(e), keep(num(1, 1))); break;
        }
        return e->bo = keep(r);
    }
    Z3_ast toBV(Expr* e) {
        if (e->bv) return e->bv;
        Z3_ast r;
        switch (e->k) {
        case K_CONST: r = num(e->w, e->v); break;
        case K_VAR: {
            Z3_symbol s = Z3_mk_int_symbol(ctx, (int)(u32)e->v);
            r = Z3_mk_const(ctx, s, Z3_mk_bv_sort(ctx, e->w));
            break;
        }
        case K_ADD: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SUB: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
        case K_MUL: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
        case K_UDIV: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
        case K_AND: r = e->w == 1 ? b2v(e) : Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break;
        case K_OR: r = e->w == 1 ? b2v(e) : Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break;
        case K_XOR: r = e->w == 1 ? b2v(e) : Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
        case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = b2v(e); break;
        case K_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c)); break;
        case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
        case K_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, toBV(e->a)); break;
        case K_CONCAT: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
        default: abort();
        }
        return e->bv = keep(r);
    }
    Z3_ast b2v(Expr* e) { return Z3_mk_ite(ctx, toBool(e), keep(num(1, 1)), keep(num(1, 0))); }

    // 1 sat (model updated in place for the slice), 0 unsat, -1 unknown
    int check(const std::vector<Expr*>& pc, Expr* cond, std::vector<u128>& model) {
        if (P.isC(cond)) return cond->v ? 1 : 0;
        // slice
        std::vector<Expr*> slice{cond};
        std::vector<u8> in(pc.size(), 0);
        std::vector<u8> vs(P.nvars, 0);
        auto add = [&](Expr* e) { for (u32 v : P.vars(e)->v) vs[v] = 1; };
        add(cond);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++)
                if (!in[i]) {
                    bool hit = false;
                    for (u32 v : P.vars(pc[i])->v)
                        if (vs[v]) { hit = true; break; }
                    if (hit) { in[i] = 1; slice.push_back(pc[i]); add(pc[i]); ch = true; }
                }
        }
        std::vector<u32> ids;
        for (auto* e : slice) ids.push_back(e->id);
        std::sort(ids.begin(), ids.end());
        ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
        std::string key((const char*)ids.data(), ids.size() * 4);
        st.queries++;
        auto it = cache.find(key);
        if (it != cache.end()) {
            st.cached++;
            if (it->second.sat)
                for (auto& p : it->second.model) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
            return it->second.sat;
        }
        auto t0 = std::chrono::steady_clock::now();
        Z3_solver_reset(ctx, sol);
        for (auto* e : slice) Z3_solver_assert(ctx, sol, toBool(e));
        Z3_lbool r = Z3_solver_check(ctx, sol);
        CacheEnt ce;
        int ret = -1;
        if (r == Z3_L_TRUE) {
            ret = 1; st.sat++;
            ce.sat = true;
            Z3_model m = Z3_solver_get_model(ctx, sol);
            Z3_model_inc_ref(ctx, m);
            std::vector<u32> list;
            for (auto* e : slice) for (u32 v : P.vars(e)->v) list.push_back(v);
            std::sort(list.begin(), list.end());
            list.erase(std::unique(list.begin(), list.end()), list.end());
            std::unordered_map<u32, Expr*> vexp;
            std::vector<Expr*> stk(slice.begin(), slice.end());
            std::unordered_set<Expr*> seen;
            while (!stk.empty()) {
                Expr* e = stk.back(); stk.pop_back();
                if (!seen.insert(e).second) continue;
                if (e->k == K_VAR) vexp[(u32)e->v] = e;
                for (Expr* x : {e->a, e->b, e->c}) if (x) stk.push_back(x);
            }
            for (u32 v : list) {
                Expr* ve = vexp[v];
                Z3_ast out = nullptr;
                u128 val = 0;
                if (Z3_model_eval(ctx, m, toBV(ve), true, &out) && out) {
                    Z3_inc_ref(ctx, out);
                    if (ve->w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, out, &x); val = x; }
                    else {
                        Z3_string s = Z3_get_numeral_string(ctx, out);
                        for (const char* p = s; *p; p++) val = val * 10 + (unsigned)(*p - '0');
                    }
                    Z3_dec_ref(ctx, out);
                }
                ce.model.push_back({v, val});
                if (model.size() <= v) model.resize(v + 1, 0);
                model[v] = val;
            }
            Z3_model_dec_ref(ctx, m);
        } else if (r == Z3_L_FALSE) { ret = 0; st.unsat++; ce.sat = false; }
        else st.unknown++;
        st.usec += (u64)std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
        if (ret >= 0) {
            if (cache.size() > 400000) cache.clear();
            cache.emplace(std::move(key), std::move(ce));
        }
        return ret;
    }
};
