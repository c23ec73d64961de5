// Path condition, independence slicing, query cache and the Z3 back end.
#pragma once
#include "expr.hpp"
#include <algorithm>
#include <chrono>
#include <unordered_map>
#include <z3.h>

enum SatRes { R_UNSAT, R_SAT, R_UNKNOWN };

static inline double now_s()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct SolverStats {
    u64 queries = 0, cache_hits = 0, ranges = 0, trivial = 0, z3_calls = 0, sat = 0, unsat = 0, unknown = 0;
    double z3_time = 0, max_time = 0;
};

struct Key {
    u64 a, b;
    bool operator==(const Key& o) const { return a == o.a && b == o.b; }
};
struct KeyHash { size_t operator()(const Key& k) const { return k.a; } };
struct CacheEnt { SatRes r; std::vector<std::pair<int, u8>> model; };

struct Solver {
    ExprPool& P;
    Z3_context ctx = nullptr;
    Z3_solver simple = nullptr, heavy = nullptr;
    SolverStats st;
    unsigned timeout_ms = 20000;
    std::unordered_map<Key, CacheEnt, KeyHash> cache;
    std::vector<Expr*> translated;
    std::string dump_dir; // when set, sampled queries are written as SMT-LIB2
    u64 dump_every = 0, dump_count = 0, dump_max = 40;

    // path condition
    std::vector<std::vector<Expr*>> single; // per variable
    std::vector<Expr*> multi;
    std::vector<int> touched;

    // variables the path condition fixes to one value
    int pin[MAXVARS];
    Sup pinned;
    std::unordered_map<Expr*, Expr*> smemo;

    Solver(ExprPool& p) : P(p)
    {
        single.resize(MAXVARS);
        pinned.clear();
        for (int& x : pin) x = -1;
    }
    // e with the fixed variables replaced by their values
    Expr* subst(Expr* e)
    {
        if (!e->sup.meets(pinned)) return e;
        if (e->op == E_VAR) return P.mkConst(pin[(int)e->val], 8);
        auto it = smemo.find(e);
        if (it != smemo.end()) return it->second;
        Expr *a = subst(e->k[0]), *b = e->k[1] ? subst(e->k[1]) : nullptr, *r;
        switch (e->op) {
        case E_ITE: r = P.isC(a) ? subst(a->val ? e->k[1] : e->k[2]) : P.mkIte(a, b, subst(e->k[2])); break;
        case E_EQ: r = P.mkEq(a, b); break;
        case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = P.mkCmp(e->op, a, b); break;
        case E_ZEXT: r = P.mkZext(a, e->w); break;
        case E_SEXT: r = P.mkSext(a, e->w); break;
        case E_EXTRACT: r = P.mkExtract(a, e->lo, e->w); break;
        case E_CONCAT: r = P.mkConcat(a, b); break;
        default: r = P.mkBin(e->op, a, b); break;
        }
        smemo[e] = r;
        return r;
    }
    void init()
    {
        Z3_config c = Z3_mk_config();
        ctx = Z3_mk_context(c);
        Z3_del_config(c);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
            fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
        });
        simple = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, simple);
        Z3_params pr = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, pr);
        Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
        Z3_solver_set_params(ctx, simple, pr);
        Z3_params_dec_ref(ctx, pr);
    }
    void resetPath()
    {
        for (int v : touched) single[v].clear();
        touched.clear();
        multi.clear();
        pinned.clear();
        smemo.clear();
        umemo.clear();
        lmemo.clear();
        memset(vn, 0, sizeof vn);
    }
    void resetPool()
    { // expressions are about to be discarded
        for (Expr* e : translated) Z3_dec_ref(ctx, (Z3_ast)e->aux);
        translated.clear();
        P.reset();
        if (cache.size() > 400000) cache.clear();
        // a fresh solver keeps learnt terms from piling up
        Z3_solver_reset(ctx, simple);
    }

    static void leaves(Expr* e, Op op, std::vector<Expr*>& out)
    {
        if (e->op == op && e->w == 1) { leaves(e->k[0], op, out); leaves(e->k[1], op, out); }
        else out.push_back(e);
    }
    // does adding c make the disjunctive constraint m redundant?
    bool impliedBy(Expr* m, Expr* c)
    {
        if (m == c) return true;
        if (m->op == E_OR) return impliedBy(m->k[0], c) || impliedBy(m->k[1], c);
        if (ExprPool::isNot(m) && m->k[0]->op == E_AND) {
            std::vector<Expr*> l;
            leaves(m->k[0], E_AND, l);
            Expr* nc = P.mkNot(c);
            for (Expr* x : l) if (x == nc) return true;
        }
        return false;
    }
    void add(Expr* c)
    {
        c = subst(c);
        if (c->op == E_CONST) return;
        if (c->op == E_AND) { add(c->k[0]); add(c->k[1]); return; }
        if (ExprPool::isNot(c) && c->k[0]->op == E_OR) { add(P.mkNot(c->k[0]->k[0])); add(P.mkNot(c->k[0]->k[1])); return; }
        if (c->nvar == 1) {
            int v = c->sup.first();
            for (Expr* x : single[v]) if (x == c) return;
            if (!lmemo.empty()) { lmemo.clear(); umemo.clear(); } // ranges change
            if (single[v].empty()) touched.push_back(v);
            if (c->op == E_EQ && c->k[0]->op == E_VAR && c->k[1]->op == E_CONST) {
                pin[v] = (int)c->k[1]->val;
                pinned.add(v);
                smemo.clear();
                single[v].clear();
                single[v].push_back(c);
                std::vector<Expr*> again;
                for (size_t i = 0; i < multi.size();)
                    if (multi[i]->sup.has(v)) { again.push_back(multi[i]); multi[i] = multi.back(); multi.pop_back(); }
                    else i++;
                for (Expr* x : again) add(x);
                return;
            }
            single[v].push_back(c);
        }
        else {
            for (Expr* x : multi) if (x == c) return;
            if (quick(c) == 1) return;
        }
        for (size_t i = 0; i < multi.size();)
            if (multi[i]->sup.meets(c->sup) && impliedBy(multi[i], c)) { multi[i] = multi.back(); multi.pop_back(); }
            else i++;
        if (c->nvar != 1) {
            if (c->op == E_OR || (ExprPool::isNot(c) && c->k[0]->op == E_AND)) // already satisfied disjunction?
                {
                bool red = false;
                c->sup.each([&](int v) { if (!red) for (Expr* x : single[v]) if (impliedBy(c, x)) { red = true; break; } });
                if (red) return;
            }
            multi.push_back(c);
        }
    }

    // ---- Z3 translation
    Z3_sort bv(int w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_ast b2v(Z3_ast b)
    {
        return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
    }
    // 1-bit expressions translate to Bool, the others to bit-vectors
    Z3_ast tr(Expr* e)
    {
        if (e->aux) return (Z3_ast)e->aux;
        Z3_ast r = tr0(e);
        Z3_inc_ref(ctx, r);
        e->aux = r;
        translated.push_back(e);
        return r;
    }
    Z3_ast trv(Expr* e) { Z3_ast a = tr(e); return e->w == 1 ? b2v(a) : a; }
    Z3_ast tr0(Expr* e)
    {
        Z3_ast a = nullptr, b = nullptr, c = nullptr;
        switch (e->op) {
        case E_CONST:
            if (e->w == 1) return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
            if (e->w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)e->val, bv(e->w));
            return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->val >> 64), bv(e->w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->val, bv(64)));
        case E_VAR: {
            char nm[16];
            snprintf(nm, sizeof nm, "b%d", (int)e->val);
            return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(8));
        }
        case E_ITE: return Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2]));
        case E_EQ: return Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1]));
        default: break;
        }
        if (e->w == 1 && e->op >= E_AND && e->op <= E_XOR) {
            Z3_ast ar[2] = { tr(e->k[0]), tr(e->k[1]) };
            if (e->op == E_AND) return Z3_mk_and(ctx, 2, ar);
            if (e->op == E_OR) return Z3_mk_or(ctx, 2, ar);
            if (ExprPool::isC(e->k[1], 1)) return Z3_mk_not(ctx, ar[0]);
            return Z3_mk_xor(ctx, ar[0], ar[1]);
        }
        a = trv(e->k[0]);
        if (e->k[1]) b = trv(e->k[1]);
        (void)c;
        Z3_ast r;
        switch (e->op) {
        case E_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
        case E_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
        case E_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
        case E_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
        case E_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case E_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
        case E_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
        case E_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
        case E_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
        case E_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
        case E_AND: r = Z3_mk_bvand(ctx, a, b); break;
        case E_OR: r = Z3_mk_bvor(ctx, a, b); break;
        case E_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
        case E_ULT: return Z3_mk_bvult(ctx, a, b);
        case E_ULE: return Z3_mk_bvule(ctx, a, b);
        case E_SLT: return Z3_mk_bvslt(ctx, a, b);
        case E_SLE: return Z3_mk_bvsle(ctx, a, b);
        case E_ZEXT: return Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, a);
        case E_SEXT: return Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, a);
        case E_CONCAT: return Z3_mk_concat(ctx, a, b);
        case E_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, a); break;
        default: abort();
        }
        if (e->w == 1) // bit-vector of width one back to Bool
            r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bv(1)));
        return r;
    }


    // ---- linear forms and ranges: sums of products by constants, exact where nothing can wrap
    struct Lin {
        std::vector<std::pair<Expr*, i128>> t; // atoms as unsigned numbers, by hash
        i128 c = 0;
        bool bad = false;
    };
    struct Rng { i128 lo, hi; bool ok; };
    std::unordered_map<Expr*, Rng> umemo;
    std::unordered_map<Expr*, Lin> lmemo;
    u8 vlo[MAXVARS], vhi[MAXVARS];
    size_t vn[MAXVARS] = {};
    Evaluator vev;
    static i128 reduce(i128 x, int w)
    {
        if (w >= 127) return x;
        return sextw((u128)x & maskw(w), w);
    }
    static bool mulOk(i128 a, i128 b, i128& r) { return !__builtin_mul_overflow(a, b, &r); }
    static bool addOk(i128 a, i128 b, i128& r) { return !__builtin_add_overflow(a, b, &r); }
    void varRange(int v, i128& lo, i128& hi)
    {
        if (!vn[v] || vn[v] != single[v].size() + 1) {
            u8 m[MAXVARS];
            int l = -1, h = -1;
            for (int x = 0; x < 256; x++) {
                m[v] = (u8)x;
                bool ok = true;
                for (Expr* e : single[v]) {
                    vev.memo.clear();
                    vev.model = m;
                    if (!vev.eval(e)) { ok = false; break; }
                }
                if (ok) { if (l < 0) l = x; h = x; }
            }
            vlo[v] = (u8)(l < 0 ? 0 : l);
            vhi[v] = (u8)(h < 0 ? 255 : h);
            vn[v] = single[v].size() + 1;
        }
        lo = vlo[v]; hi = vhi[v];
    }
    // a condition on one variable, decided by the values the variable may have
    int one(Expr* c)
    {
        int v = c->sup.first(), r = -1;
        i128 lo, hi;
        varRange(v, lo, hi);
        if (hi - lo > 64) return -1;
        u8 m[MAXVARS];
        for (i128 x = lo; x <= hi; x++) {
            m[v] = (u8)x;
            vev.memo.clear();
            vev.model = m;
            int k = vev.eval(c) != 0;
            if (r >= 0 && k != r) return -1;
            r = k;
        }
        return r;
    }
    Rng atomRange(Expr* e, int depth)
    {
        i128 full = e->w >= 127 ? (((i128)1 << 126) - 1 + ((i128)1 << 126)) : ((i128)1 << e->w) - 1;
        Rng r { 0, full, e->w < 127 };
        switch (e->op) {
        case E_VAR: varRange((int)e->val, r.lo, r.hi); r.ok = true; break;
        case E_ITE: {
            Rng a = urange(e->k[1], depth + 1), b = urange(e->k[2], depth + 1);
            if (a.ok && b.ok) { r.lo = a.lo < b.lo ? a.lo : b.lo; r.hi = a.hi > b.hi ? a.hi : b.hi; r.ok = true; }
            break;
        }
        case E_EXTRACT: {
            Rng a = urange(e->k[0], depth + 1);
            if (a.ok && (a.hi >> e->lo) <= full) { r.lo = a.lo >> e->lo; r.hi = a.hi >> e->lo; r.ok = true; }
            break;
        }
        case E_CONCAT: {
            Rng a = urange(e->k[0], depth + 1), b = urange(e->k[1], depth + 1);
            if (a.ok && b.ok && e->w < 127) { r.lo = (a.lo << e->k[1]->w) + b.lo; r.hi = (a.hi << e->k[1]->w) + b.hi; r.ok = true; }
            break;
        }
        case E_UDIV: case E_UREM: {
            Rng a = urange(e->k[0], depth + 1);
            if (a.ok && ExprPool::isC(e->k[1]) && e->k[1]->val && e->w < 127) {
                i128 d = (i128)e->k[1]->val;
                if (e->op == E_UDIV) { r.lo = a.lo / d; r.hi = a.hi / d; }
                else { r.lo = 0; r.hi = a.hi < d - 1 ? a.hi : d - 1; }
            }
            break;
        }
        case E_AND: {
            Rng a = urange(e->k[0], depth + 1), b = urange(e->k[1], depth + 1);
            if (a.ok && b.ok) { r.lo = 0; r.hi = a.hi < b.hi ? a.hi : b.hi; r.ok = true; }
            break;
        }
        default: break;
        }
        return r;
    }
    bool linAdd(Lin& l, Expr* a, i128 k, int w)
    {
        for (auto& x : l.t)
            if (x.first == a) {
                if (!addOk(x.second, k, x.second)) return false;
                x.second = reduce(x.second, w);
                return true;
            }
        l.t.push_back({ a, reduce(k, w) });
        return l.t.size() < 80;
    }
    bool linMix(Lin& l, const Lin& o, i128 k, int w)
    {
        i128 x;
        if (!mulOk(o.c, k, x) || !addOk(l.c, x, l.c)) return false;
        l.c = reduce(l.c, w);
        for (auto& t : o.t) if (!mulOk(t.second, k, x) || !linAdd(l, t.first, x, w)) return false;
        return true;
    }
    // e, modulo 2^w, as a sum
    const Lin& lin(Expr* e, int depth = 0)
    {
        auto it = lmemo.find(e);
        if (it != lmemo.end()) return it->second;
        int w = e->w;
        Lin r;
        bool ok = false;
        if (depth < 60) switch (e->op) {
        case E_CONST: ok = w < 127 || !(e->val >> 126); r.c = w < 127 ? reduce((i128)e->val, w) : (i128)e->val; break;
        case E_ADD: ok = linMix(r, lin(e->k[0], depth + 1), 1, w) && linMix(r, lin(e->k[1], depth + 1), 1, w); break;
        case E_SUB: ok = linMix(r, lin(e->k[0], depth + 1), 1, w) && linMix(r, lin(e->k[1], depth + 1), -1, w); break;
        case E_MUL:
            if (ExprPool::isC(e->k[1]) && (w < 127 || !(e->k[1]->val >> 100)))
                ok = linMix(r, lin(e->k[0], depth + 1), w < 127 ? reduce((i128)e->k[1]->val, w) : (i128)e->k[1]->val, w);
            break;
        case E_XOR:
            if (ExprPool::isNot(e) && w < 127) { r.c = -1; ok = linMix(r, lin(e->k[0], depth + 1), -1, w); }
            break;
        case E_CONCAT:
            if (ExprPool::isC(e->k[1]) && e->k[1]->w < 100) {
                r.c = (i128)e->k[1]->val;
                ok = linMix(r, lin(e->k[0], depth + 1), (i128)1 << e->k[1]->w, w);
            }
            break;
        case E_ZEXT: {
            const Lin& k = lin(e->k[0], depth + 1);
            Lin c = k;
            if (window(c, e->k[0]->w, false)) { ok = linMix(r, c, 1, w); }
            else { r.t.push_back({ e->k[0], 1 }); ok = true; }
            break;
        }
        case E_SEXT: {
            Lin c = lin(e->k[0], depth + 1);
            if (window(c, e->k[0]->w, true)) ok = linMix(r, c, 1, w);
            break;
        }
        case E_EXTRACT:
            if (e->lo == 0) ok = linMix(r, lin(e->k[0], depth + 1), 1, w);
            break;
        case E_ITE:
            if (int k = e->k[0]->nvar == 1 ? one(e->k[0]) : quick(e->k[0]); k >= 0) { ok = linMix(r, lin(e->k[k ? 1 : 2], depth + 1), 1, w); break; }
            [[fallthrough]];
        case E_OR: case E_AND:
            if (e->op == E_OR && ExprPool::isC(e->k[1]) && e->k[1]->val < 64) { // bits that are all zero in a multiple
                const Lin& k = lin(e->k[0], depth + 1);
                i128 m = 1;
                while (m <= (i128)e->k[1]->val) m *= 2;
                bool mult = !k.bad && k.c % m == 0;
                for (auto& t : k.t) mult = mult && t.second % m == 0;
                if (mult) { ok = linMix(r, k, 1, w); r.c += (i128)e->k[1]->val; break; }
            }
            if (Expr* x = asVar(e); x != e) ok = linMix(r, lin(x, depth + 1), 1, w);
            break;
        default: break;
        }
        if (!ok) {
            r = Lin();
            if (e->op == E_CONST) r.bad = true;
            else r.t.push_back({ e, 1 });
        }
        size_t n = 0;
        for (auto& t : r.t) if (t.second) r.t[n++] = t;
        r.t.resize(n);
        std::sort(r.t.begin(), r.t.end(), [](auto& a, auto& b) { return a.first->h0 < b.first->h0; });
        return lmemo[e] = std::move(r);
    }
    bool linRange(const Lin& l, i128& lo, i128& hi)
    {
        lo = hi = l.c;
        if (l.bad) return false;
        for (auto& t : l.t) {
            Rng a;
            auto it = umemo.find(t.first);
            if (it != umemo.end()) a = it->second;
            else {
                umemo[t.first] = Rng { 0, 0, false };
                a = atomRange(t.first, 0);
                umemo[t.first] = a;
            }
            i128 x, y;
            if (!a.ok || !mulOk(a.lo, t.second, x) || !mulOk(a.hi, t.second, y)) return false;
            if (x > y) std::swap(x, y);
            if (!addOk(lo, x, lo) || !addOk(hi, y, hi)) return false;
        }
        return true;
    }
    // shift the constant so that the sum is exactly the (signed) value of the w-bit term
    bool window(Lin& l, int w, bool sg)
    {
        i128 lo, hi;
        if (!linRange(l, lo, hi)) return false;
        if (w >= 127) return !sg && lo >= 0;
        i128 m = (i128)1 << w, base = sg ? -(m >> 1) : 0;
        i128 q = (lo - base) / m;
        if ((lo - base) % m < 0) q--;
        lo -= q * m; hi -= q * m;
        if (hi >= base + m) return false;
        l.c -= q * m;
        return true;
    }
    Rng urange(Expr* e, int depth = 0)
    {
        if (depth > 40) return { 0, 0, false };
        Lin l = lin(e, depth);
        Rng r { 0, 0, false };
        if (window(l, e->w, false) && linRange(l, r.lo, r.hi)) r.ok = true;
        else if (e->w < 127) { r.hi = ((i128)1 << e->w) - 1; r.ok = true; }
        return r;
    }
    Expr* build(const Lin& l, int w)
    {
        Expr* r = nullptr;
        for (auto& t : l.t) {
            Expr* a = t.first->w <= w ? P.mkZext(t.first, w) : P.mkExtract(t.first, 0, w);
            a = P.mkBin(E_MUL, a, P.mkConst((u128)t.second, w));
            r = r ? P.mkBin(E_ADD, r, a) : a;
        }
        Expr* c = P.mkConst((u128)l.c, w);
        return r ? P.mkBin(E_ADD, r, c) : c;
    }
    // a / c or a % c for a constant c, where the sum splits; null otherwise
    Expr* divide(Expr* a, u128 cv, bool rem)
    {
        if (a->w > 64 || cv < 2 || cv >> 62 || a->nvar < 2) return nullptr;
        a = subst(a);
        Lin l = lin(a), q, r;
        if (!window(l, a->w, false)) return nullptr;
        i128 c = (i128)cv;
        auto split = [&](i128 x, i128& qq, i128& rr) { qq = x / c; rr = x % c; if (rr < 0) { rr += c; qq--; } };
        split(l.c, q.c, r.c);
        for (auto& t : l.t) {
            i128 x, y;
            split(t.second, x, y);
            if (x) q.t.push_back({ t.first, x });
            if (y) r.t.push_back({ t.first, y });
        }
        i128 lo, hi;
        if (!linRange(r, lo, hi)) return nullptr;
        i128 k = lo / c - (lo % c < 0); // the remainder's multiple of c belongs to the quotient
        r.c -= k * c;
        q.c += k;
        if (hi - k * c >= c) return nullptr;
        if (rem) return build(r, a->w);
        if (!linRange(q, lo, hi) || lo < 0) return nullptr;
        return build(q, a->w);
    }
    // an 8-bit term over two variables that is, for all values they may have, one of them plus a constant
    Expr* asVar(Expr* e)
    {
        if (e->w != 8 || !e->nvar || e->nvar > 2 || e->op == E_VAR) return e;
        int v[2], n = 0;
        e->sup.each([&](int x) { v[n++] = x; });
        i128 lo[2], hi[2];
        if (n == 1) v[1] = v[0];
        for (int k = 0; k < 2; k++) varRange(v[k], lo[k], hi[k]);
        if (n == 1) lo[0] = hi[0];
        if ((hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1) > 400) return e;
        u8 m[MAXVARS];
        int d[2] = { -1, -1 }, k0 = -1;
        for (i128 a = lo[0]; a <= hi[0]; a++)
            for (i128 b = lo[1]; b <= hi[1]; b++) {
                m[v[0]] = (u8)a; m[v[1]] = (u8)b;
                vev.memo.clear();
                vev.model = m;
                u8 r = (u8)vev.eval(e);
                for (int k = 0; k < 2; k++) {
                    int x = (u8)(r - m[v[k]]);
                    if (d[k] == -1) d[k] = x;
                    else if (d[k] != x) d[k] = -2;
                }
                k0 = k0 == -1 || k0 == r ? r : -2;
                if (d[0] == -2 && d[1] == -2 && k0 == -2) return e;
            }
        if (k0 >= 0) return P.mkConst((u128)k0, 8);
        for (int k = 0; k < 2; k++) if (d[k] >= 0) return P.mkBin(E_ADD, P.mkVar(v[k]), P.mkConst(d[k], 8));
        return e;
    }
    // e > limit, by its range; -1 not decided
    int above(Expr* e, u128 limit)
    {
        Lin x = lin(e);
        i128 lo, hi;
        if (!window(x, e->w, false) || !linRange(x, lo, hi)) return -1;
        if (lo > (i128)limit) { st.ranges++; return 1; }
        if (hi <= (i128)limit) { st.ranges++; return 0; }
        return -1;
    }
    // -1 not decided by ranges, 0 false, 1 true
    int quick(Expr* c)
    {
        bool neg = ExprPool::isNot(c);
        if (neg) c = c->k[0];
        if (c->nvar < 2) return -1;
        // a sign bit
        {
            Expr* s = c->op == E_EQ && c->k[0]->w == 1 && ExprPool::isC(c->k[1]) ? c->k[0] : c;
            if (s->op == E_EXTRACT && s->w == 1 && s->lo == s->k[0]->w - 1 && s->k[0]->w >= 16) {
                Lin x = lin(s->k[0]);
                i128 lo, hi;
                if (window(x, s->k[0]->w, true) && linRange(x, lo, hi) && (lo >= 0 || hi < 0)) {
                    bool one = hi < 0, want = s == c || c->k[1]->val;
                    st.ranges++;
                    return (one == want) != neg;
                }
                return -1;
            }
        }
        if (c->op < E_EQ || c->op > E_SLE) return -1;
        Expr *a = c->k[0], *b = c->k[1];
        if (a->w < 16 || (a->op == E_CONCAT && b->op == E_CONST && c->op == E_EQ)) return -1;
        bool sg = c->op == E_SLT || c->op == E_SLE;
        Lin x = lin(a), y = lin(b);
        int r = -1;
        if (window(x, a->w, sg) && window(y, a->w, sg)) {
            Lin d = x; // compare the difference
            i128 lo, hi;
            if (linMix(d, y, -1, 128) && linRange(d, lo, hi)) switch (c->op) {
            case E_EQ: if (lo > 0 || hi < 0) r = 0; else if (!lo && !hi) r = 1; break;
            case E_ULT: case E_SLT: if (hi < 0) r = 1; else if (lo >= 0) r = 0; break;
            default: if (hi <= 0) r = 1; else if (lo > 0) r = 0;
            }
        }
        if (r >= 0) st.ranges++;
        return r < 0 ? r : neg ? !r : r;
    }

    // is PC && c satisfiable?  On SAT the values of the slice's variables are written to model.
    SatRes query(Expr* c, u8* model)
    {
        st.queries++;
        c = subst(c);
        if (c->op == E_CONST) { st.trivial++; return c->val ? R_SAT : R_UNSAT; }
        if (int k = quick(c); k >= 0) return k ? R_SAT : R_UNSAT;
        Sup s = c->sup;
        std::vector<Expr*> q;
        q.reserve(32);
        if (!multi.empty()) {
            static thread_local std::vector<char> used;
            used.assign(multi.size(), 0);
            for (bool ch = true; ch;) {
                ch = false;
                for (size_t i = 0; i < multi.size(); i++)
                    if (!used[i] && multi[i]->sup.meets(s)) { used[i] = 1; s.merge(multi[i]->sup); ch = true; q.push_back(multi[i]); }
            }
        }
        int nv = s.count();
        bool shape = nv == 1;
        Key k { 0, 0 };
        s.each([&](int v) { for (Expr* x : single[v]) q.push_back(x); });
        for (Expr* x : q) if (shape) { k.a += x->s0; k.b += x->s1; } else { k.a += x->h0; k.b += x->h1; }
        Key kc = shape ? Key { mix64(c->s0 + 0x5bd1e995), mix64(c->s1 + 0x1b873593) } : Key { mix64(c->h0 + 1), mix64(c->h1 + 2) };
        // the condition is hashed apart from the path condition, the shape apart from the full form
        k.a ^= kc.a; k.b ^= kc.b + shape;
        auto it = cache.find(k);
        if (it != cache.end()) {
            st.cache_hits++;
            if (it->second.r == R_SAT && model) {
                if (shape) model[s.first()] = it->second.model[0].second;
                else for (auto& m : it->second.model) model[m.first] = m.second;
            }
            return it->second.r;
        }
        CacheEnt ent;
        ent.r = z3check(q, c, s, ent.model);
        if (ent.r == R_SAT && model) for (auto& m : ent.model) model[m.first] = m.second;
        if (ent.r == R_SAT) st.sat++;
        else if (ent.r == R_UNSAT) st.unsat++;
        else st.unknown++;
        SatRes r = ent.r;
        if (r != R_UNKNOWN) cache.emplace(k, std::move(ent));
        return r;
    }

    SatRes z3check(const std::vector<Expr*>& q, Expr* c, const Sup& s, std::vector<std::pair<int, u8>>& out)
    {
        double t0 = now_s();
        st.z3_calls++;
        bool hard = c->hard;
        for (Expr* x : q) hard |= x->hard;
        Z3_solver sv = simple;
        if (hard) {
            static const char* const names[4] = { "simplify", "solve-eqs", "bit-blast", "sat" };
            Z3_tactic t[4];
            for (int i = 0; i < 4; i++) Z3_tactic_inc_ref(ctx, t[i] = Z3_mk_tactic(ctx, names[i]));
            Z3_tactic a = Z3_tactic_and_then(ctx, t[0], t[1]);
            Z3_tactic_inc_ref(ctx, a);
            Z3_tactic b = Z3_tactic_and_then(ctx, t[2], t[3]);
            Z3_tactic_inc_ref(ctx, b);
            Z3_tactic d = Z3_tactic_and_then(ctx, a, b);
            Z3_tactic_inc_ref(ctx, d);
            sv = Z3_mk_solver_from_tactic(ctx, d);
            Z3_solver_inc_ref(ctx, sv);
            Z3_params pr = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, pr);
            Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
            Z3_solver_set_params(ctx, sv, pr);
            Z3_params_dec_ref(ctx, pr);
            for (auto x : t) Z3_tactic_dec_ref(ctx, x);
            Z3_tactic_dec_ref(ctx, a); Z3_tactic_dec_ref(ctx, b); Z3_tactic_dec_ref(ctx, d);
        }
        else Z3_solver_push(ctx, sv);
        for (Expr* x : q) Z3_solver_assert(ctx, sv, tr(x));
        Z3_solver_assert(ctx, sv, tr(c));
        Z3_lbool r = Z3_solver_check(ctx, sv);
        SatRes res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
        if (dump_every && (st.z3_calls % dump_every) == 0 && (dump_count < dump_max || dump_every == 1)) {
            char fn[512];
            snprintf(fn, sizeof fn, "%s/q%llu_%s.smt2", dump_dir.c_str(), (unsigned long long)dump_count++, res == R_SAT ? "sat" : res == R_UNSAT ? "unsat" : "unknown");
            if (FILE* f = fopen(fn, "w")) {
                Z3_solver w = Z3_mk_simple_solver(ctx); // sv may have rewritten its assertions
                Z3_solver_inc_ref(ctx, w);
                for (Expr* x : q) Z3_solver_assert(ctx, w, tr(x));
                Z3_solver_assert(ctx, w, tr(c));
                fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, w));
                Z3_solver_dec_ref(ctx, w);
                fclose(f);
            }
        }
        if (res == R_SAT) {
            Z3_model m = Z3_solver_get_model(ctx, sv);
            if (!m) res = R_UNKNOWN;
            else {
                Z3_model_inc_ref(ctx, m);
                s.each([&](int v) {
                    Z3_ast val = nullptr;
                    u64 x = 0;
                    Expr* ve = P.mkVar(v);
                    if (!Z3_model_eval(ctx, m, tr(ve), true, &val) || !Z3_get_numeral_uint64(ctx, val, (uint64_t*)&x)) res = R_UNKNOWN;
                    out.push_back({ v, (u8)x });
                });
                Z3_model_dec_ref(ctx, m);
            }
        }
        if (hard) Z3_solver_dec_ref(ctx, sv);
        else Z3_solver_pop(ctx, sv, 1);
        double dt = now_s() - t0;
        st.z3_time += dt;
        if (dt > st.max_time) st.max_time = dt;
        return res;
    }
};
