// Bit-vector expressions: hash-consed per path, simplified on construction.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef int32_t i32;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : u8 {
    E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
    E_AND, E_OR, E_XOR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT
};

static const int MAXVARS = 384;
struct Sup {
    u64 w[MAXVARS / 64];
    void clear() { memset(w, 0, sizeof w); }
    void add(int i) { w[i >> 6] |= 1ull << (i & 63); }
    bool has(int i) const { return w[i >> 6] >> (i & 63) & 1; }
    void merge(const Sup& o) { for (int i = 0; i < MAXVARS / 64; i++) w[i] |= o.w[i]; }
    int count() const { int n = 0; for (int i = 0; i < MAXVARS / 64; i++) n += __builtin_popcountll(w[i]); return n; }
    bool meets(const Sup& o) const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i] & o.w[i]) return true; return false; }
    int first() const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
    bool any() const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i]) return true; return false; }
    template <class F> void each(F f) const
    {
        for (int i = 0; i < MAXVARS / 64; i++) {
            u64 x = w[i];
            while (x) { int b = __builtin_ctzll(x); f(i * 64 + b); x &= x - 1; }
        }
    }
};

struct Expr {
    Op op;
    bool hard; // contains mul/div by non power of two
    u16 w;     // width in bits, 1..128
    u16 lo;    // EXTRACT: lowest bit
    u32 size;  // rough tree size, saturating
    Expr* k[3];
    u128 val; // CONST value, VAR id
    u64 h0, h1;
    u64 s0, s1; // shape hash: as h0/h1 with the variable's identity left out
    int nvar;   // number of distinct variables
    void* aux;  // solver side translation cache
    Sup sup;
    Expr* next; // hash chain
};

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, int w)
{
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ s) - s);
}
static inline u64 mix64(u64 x)
{
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}

// concrete evaluation of one operator, shared by the simplifier and the evaluator
static inline u128 evalop(Op op, int w, int kw, int lo, u128 a, u128 b, u128 c, int bw)
{
    switch (op) {
    case E_ADD: return (a + b) & maskw(w);
    case E_SUB: return (a - b) & maskw(w);
    case E_MUL: return (a * b) & maskw(w);
    case E_UDIV: return b == 0 ? maskw(w) : a / b;
    case E_UREM: return b == 0 ? a : a % b;
    case E_SDIV: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return x < 0 ? 1 : maskw(w);
        if (y == -1) return (u128)(-(u128)x) & maskw(w);
        return (u128)(x / y) & maskw(w);
    }
    case E_SREM: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & maskw(w);
    }
    case E_SHL: return b >= (u128)w ? 0 : (a << (int)b) & maskw(w);
    case E_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
    case E_ASHR: { i128 x = sextw(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & maskw(w); }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, kw) < sextw(b, kw);
    case E_SLE: return sextw(a, kw) <= sextw(b, kw);
    case E_ITE: return a ? b : c;
    case E_ZEXT: return a;
    case E_SEXT: return (u128)sextw(a, kw) & maskw(w);
    case E_EXTRACT: return (a >> lo) & maskw(w);
    case E_CONCAT: return (a << bw) | b;
    default: abort();
    }
}

struct ExprPool {
    std::vector<char*> blocks;
    size_t cur = 0, used = 0;
    static const size_t BLK = 1 << 20;
    std::vector<Expr*> table;
    size_t count = 0;
    std::vector<Expr*> vars;

    ExprPool() { table.assign(1 << 14, nullptr); vars.assign(MAXVARS, nullptr); }
    void reset()
    {
        cur = 0; used = 0;
        if (count) std::fill(table.begin(), table.end(), nullptr);
        count = 0;
        std::fill(vars.begin(), vars.end(), nullptr);
    }
    Expr* alloc()
    {
        size_t n = (sizeof(Expr) + 15) & ~size_t(15);
        if (blocks.empty()) blocks.push_back((char*)aligned_alloc(16, BLK));
        if (used + n > BLK) {
            cur++;
            used = 0;
            if (cur == blocks.size()) blocks.push_back((char*)aligned_alloc(16, BLK));
        }
        Expr* e = (Expr*)(blocks[cur] + used);
        used += n;
        return e;
    }
    Expr* intern(Op op, int w, int lo, u128 val, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr)
    {
        u64 h0 = mix64(((u64)op << 32) ^ ((u64)w << 16) ^ lo ^ 0x9e3779b97f4a7c15ULL);
        u64 h1 = mix64(h0 + 0x1234567);
        auto feed = [&](u64 x, u64 y) {
            h0 = mix64(h0 * 31 + x);
            h1 = mix64(h1 * 37 ^ (y + 0x51ed270b));
        };
        feed((u64)val, (u64)val);
        feed((u64)(val >> 64), (u64)(val >> 64));
        if (a) feed(a->h0, a->h1);
        if (b) feed(b->h0, b->h1);
        if (c) feed(c->h0, c->h1);
        size_t ix = h0 & (table.size() - 1);
        for (Expr* e = table[ix]; e; e = e->next)
            if (e->h0 == h0 && e->h1 == h1) return e;
        Expr* e = alloc();
        e->op = op; e->w = w; e->lo = lo; e->val = val;
        e->k[0] = a; e->k[1] = b; e->k[2] = c;
        e->h0 = h0; e->h1 = h1;
        e->aux = nullptr;
        u64 g0 = mix64(((u64)op << 32) ^ ((u64)w << 16) ^ lo ^ 0x7137449123ef65cdULL), g1 = mix64(g0 + 77);
        auto sfeed = [&](u64 x, u64 y) { g0 = mix64(g0 * 31 + x); g1 = mix64(g1 * 37 ^ (y + 0x51ed270b)); };
        if (op != E_VAR) { sfeed((u64)val, (u64)val); sfeed((u64)(val >> 64), (u64)(val >> 64)); }
        if (a) sfeed(a->s0, a->s1);
        if (b) sfeed(b->s0, b->s1);
        if (c) sfeed(c->s0, c->s1);
        e->s0 = g0; e->s1 = g1;
        e->sup.clear();
        e->hard = op >= E_MUL && op <= E_SREM;
        u64 sz = 1;
        for (int i = 0; i < 3; i++)
            if (e->k[i]) {
                e->sup.merge(e->k[i]->sup);
                e->hard |= e->k[i]->hard;
                sz += e->k[i]->size;
            }
        e->size = sz > 1000000 ? 1000000 : sz;
        if (op == E_VAR) e->sup.add((int)val);
        e->nvar = e->sup.count();
        e->next = table[ix];
        table[ix] = e;
        if (++count > table.size() * 2) {
            std::vector<Expr*> nt(table.size() * 4, nullptr);
            for (Expr* x : table)
                while (x) {
                    Expr* nx = x->next;
                    size_t j = x->h0 & (nt.size() - 1);
                    x->next = nt[j];
                    nt[j] = x;
                    x = nx;
                }
            table.swap(nt);
        }
        return e;
    }
    Expr* mkConst(u128 v, int w) { return intern(E_CONST, w, 0, v & maskw(w)); }
    Expr* mkVar(int id)
    {
        if (!vars[id]) vars[id] = intern(E_VAR, 8, 0, id);
        return vars[id];
    }
    static bool isC(Expr* e) { return e->op == E_CONST; }
    static bool isC(Expr* e, u128 v) { return e->op == E_CONST && e->val == v; }
    Expr* T() { return mkConst(1, 1); }
    Expr* F() { return mkConst(0, 1); }
    Expr* mkNot(Expr* e) { return mkBin(E_XOR, e, mkConst(maskw(e->w), e->w)); }
    static bool isNot(Expr* e) { return e->op == E_XOR && isC(e->k[1], maskw(e->w)); }
    static bool pow2(u128 v) { return v && !(v & (v - 1)); }
    static int log2v(u128 v) { int i = 0; while (v >>= 1) i++; return i; }

    Expr* mkExtract(Expr* e, int lo, int w)
    {
        if (lo == 0 && w == e->w) return e;
        switch (e->op) {
        case E_CONST: return mkConst(e->val >> lo, w);
        case E_EXTRACT: return mkExtract(e->k[0], e->lo + lo, w);
        case E_ZEXT: {
            int kw = e->k[0]->w;
            if (lo + w <= kw) return mkExtract(e->k[0], lo, w);
            if (lo >= kw) return mkConst(0, w);
            return mkZext(mkExtract(e->k[0], lo, kw - lo), w);
        }
        case E_SEXT: {
            int kw = e->k[0]->w;
            if (lo + w <= kw) return mkExtract(e->k[0], lo, w);
            if (lo == 0) return mkSext(e->k[0], w);
            break;
        }
        case E_CONCAT: {
            int bw = e->k[1]->w;
            if (lo + w <= bw) return mkExtract(e->k[1], lo, w);
            if (lo >= bw) return mkExtract(e->k[0], lo - bw, w);
            return mkConcat(mkExtract(e->k[0], 0, lo + w - bw), mkExtract(e->k[1], lo, bw - lo));
        }
        case E_AND: case E_OR: case E_XOR:
            return mkBin(e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
        case E_ADD: case E_SUB: case E_MUL:
            if (lo == 0) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
            break;
        case E_ITE:
            if ((isC(e->k[1]) || isC(e->k[2])) || e->size < 64)
                return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
            break;
        default: break;
        }
        return intern(E_EXTRACT, w, lo, 0, e);
    }
    Expr* mkZext(Expr* e, int w)
    {
        if (e->w == w) return e;
        if (isC(e)) return mkConst(e->val, w);
        if (e->op == E_ZEXT) return mkZext(e->k[0], w);
        return intern(E_ZEXT, w, 0, 0, e);
    }
    Expr* mkSext(Expr* e, int w)
    {
        if (e->w == w) return e;
        if (isC(e)) return mkConst((u128)sextw(e->val, e->w), w);
        if (e->op == E_ZEXT) return mkZext(e->k[0], w);
        if (e->op == E_SEXT) return mkSext(e->k[0], w);
        if (e->w == 1) return mkIte(e, mkConst(maskw(w), w), mkConst(0, w));
        return intern(E_SEXT, w, 0, 0, e);
    }
    Expr* mkConcat(Expr* hi, Expr* lo)
    {
        int w = hi->w + lo->w;
        if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
        if (isC(hi, 0)) return mkZext(lo, w);
        if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->w)
            return mkExtract(hi->k[0], lo->lo, w);
        if (hi->op == E_EXTRACT && hi->k[0] == lo && hi->lo == lo->w && false) return lo;
        if (hi->op == E_ZEXT) // (0 . x) . y  ->  0 . (x . y)
            return mkZext(mkConcat(hi->k[0], lo), w);
        return intern(E_CONCAT, w, 0, 0, hi, lo);
    }
    Expr* mkIte(Expr* c, Expr* a, Expr* b)
    {
        if (isC(c)) return c->val ? a : b;
        if (a == b) return a;
        if (isNot(c)) return mkIte(c->k[0], b, a);
        if (a->w == 1) {
            if (isC(a, 1) && isC(b, 0)) return c;
            if (isC(a, 0) && isC(b, 1)) return mkNot(c);
            if (isC(a, 1)) return mkBin(E_OR, c, b);
            if (isC(b, 0)) return mkBin(E_AND, c, a);
            if (isC(a, 0)) return mkBin(E_AND, mkNot(c), b);
            if (isC(b, 1)) return mkBin(E_OR, mkNot(c), a);
        }
        if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
        if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
        if (a == b) return a;
        return intern(E_ITE, a->w, 0, 0, c, a, b);
    }
    Expr* mkEq(Expr* a, Expr* b)
    {
        if (a == b) return T();
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (isC(a)) return mkConst(a->val == b->val, 1);
            u128 v = b->val;
            if (a->w == 1) return v ? a : mkNot(a);
            switch (a->op) {
            case E_ZEXT:
                if (v >> a->k[0]->w) return F();
                return mkEq(a->k[0], mkConst(v, a->k[0]->w));
            case E_SEXT:
                if (((u128)sextw(v, a->k[0]->w) & maskw(a->w)) != v) return F();
                return mkEq(a->k[0], mkConst(v, a->k[0]->w));
            case E_CONCAT:
                return mkBin(E_AND, mkEq(a->k[0], mkConst(v >> a->k[1]->w, a->k[0]->w)), mkEq(a->k[1], mkConst(v, a->k[1]->w)));
            case E_XOR:
                if (isC(a->k[1])) return mkEq(a->k[0], mkConst(v ^ a->k[1]->val, a->w));
                break;
            case E_ADD:
                if (isC(a->k[1])) return mkEq(a->k[0], mkConst(v - a->k[1]->val, a->w));
                break;
            case E_ITE:
                if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
                break;
            default: break;
            }
        }
        else {
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
            if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
            if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w)
                return mkBin(E_AND, mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
            if (a->w == 1) return mkNot(mkBin(E_XOR, a, b));
            if (a->h0 > b->h0) std::swap(a, b);
        }
        return intern(E_EQ, 1, 0, 0, a, b);
    }
    Expr* mkCmp(Op op, Expr* a, Expr* b)
    {
        int w = a->w;
        if (isC(a) && isC(b)) return mkConst(evalop(op, 1, w, 0, a->val, b->val, 0, 0), 1);
        if (a == b) return mkConst(op == E_ULE || op == E_SLE, 1);
        if (op == E_ULT || op == E_ULE) {
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
            if (a->op == E_ZEXT && isC(b)) {
                int kw = a->k[0]->w;
                if (b->val >> kw) return T();
                return mkCmp(op, a->k[0], mkConst(b->val, kw));
            }
            if (b->op == E_ZEXT && isC(a)) {
                int kw = b->k[0]->w;
                if (a->val >> kw) return F();
                return mkCmp(op, mkConst(a->val, kw), b->k[0]);
            }
            if (op == E_ULT) {
                if (isC(b, 0)) return F();
                if (isC(a, 0)) return mkNot(mkEq(b, a));
                if (isC(b, 1)) return mkEq(a, mkConst(0, w));
                if (isC(a, maskw(w))) return F();
                if (isC(b, maskw(w))) return mkNot(mkEq(a, b));
            }
            else {
                if (isC(a, 0)) return T();
                if (isC(b, maskw(w))) return T();
                if (isC(b)) return mkCmp(E_ULT, a, mkConst(b->val + 1, w));
                return mkNot(mkCmp(E_ULT, b, a));
            }
        }
        else {
            // both sign bits known clear: unsigned compare
            auto nonneg = [&](Expr* e) { return (e->op == E_ZEXT) || (isC(e) && !(e->val >> (w - 1))); };
            if (nonneg(a) && nonneg(b)) return mkCmp(op == E_SLT ? E_ULT : E_ULE, a, b);
            auto negc = [&](Expr* e) { return isC(e) && (e->val >> (w - 1)); };
            if (a->op == E_ZEXT && negc(b)) return F();
            if (negc(a) && b->op == E_ZEXT) return T();
            if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
            if (a->op == E_SEXT && isC(b)) {
                int kw = a->k[0]->w;
                i128 v = sextw(b->val, w), mx = ((i128)1 << (kw - 1)) - 1, mn = -mx - 1;
                if (v > mx) return T();
                if (v < mn) return F();
                return mkCmp(op, a->k[0], mkConst((u128)v, kw));
            }
            if (b->op == E_SEXT && isC(a)) {
                int kw = b->k[0]->w;
                i128 v = sextw(a->val, w), mx = ((i128)1 << (kw - 1)) - 1, mn = -mx - 1;
                if (v > mx) return F();
                if (v < mn) return T();
                return mkCmp(op, mkConst((u128)v, kw), b->k[0]);
            }
            if (op == E_SLE) {
                if (isC(b) && b->val != maskw(w - 1)) return mkCmp(E_SLT, a, mkConst(b->val + 1, w));
                return mkNot(mkCmp(E_SLT, b, a));
            }
        }
        return intern(op, 1, 0, 0, a, b);
    }
    Expr* mkBin(Op op, Expr* a, Expr* b)
    {
        int w = a->w;
        if (isC(a) && isC(b)) return mkConst(evalop(op, w, w, 0, a->val, b->val, 0, 0), w);
        bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
        if (comm && isC(a)) std::swap(a, b);
        switch (op) {
        case E_ADD:
            if (isC(b, 0)) return a;
            if (isC(b) && a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
            if (!isC(b) && b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
            if (!isC(b) && a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
            break;
        case E_SUB:
            if (a == b) return mkConst(0, w);
            if (isC(b)) return mkBin(E_ADD, a, mkConst(-b->val, w));
            if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
            if (a->op == E_ADD && a->k[0] == b) return a->k[1];
            break;
        case E_MUL:
            if (isC(b, 0)) return b;
            if (isC(b, 1)) return a;
            if (isC(b) && pow2(b->val)) return mkBin(E_SHL, a, mkConst(log2v(b->val), w));
            break;
        case E_UDIV:
            if (isC(b, 1)) return a;
            if (isC(b) && pow2(b->val)) return mkBin(E_LSHR, a, mkConst(log2v(b->val), w));
            break;
        case E_UREM:
            if (isC(b, 1)) return mkConst(0, w);
            if (isC(b) && pow2(b->val)) return mkBin(E_AND, a, mkConst(b->val - 1, w));
            break;
        case E_SHL:
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val >= (u128)w) return mkConst(0, w);
                int s = (int)b->val;
                return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            }
            break;
        case E_LSHR:
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val >= (u128)w) return mkConst(0, w);
                int s = (int)b->val;
                return mkZext(mkExtract(a, s, w - s), w);
            }
            break;
        case E_ASHR:
            if (isC(b)) {
                if (b->val == 0) return a;
                int s = b->val >= (u128)w ? w - 1 : (int)b->val;
                return mkSext(mkExtract(a, s, w - s), w);
            }
            break;
        case E_AND:
            if (a == b) return a;
            if (isC(b, 0)) return b;
            if (isC(b, maskw(w))) return a;
            if (isC(b)) { // contiguous mask
                u128 m = b->val;
                int lo = 0;
                while (!(m >> lo & 1)) lo++;
                u128 r = m >> lo;
                if (!(r & (r + 1)) && w > 1) {
                    int n = 0;
                    while (r) { n++; r >>= 1; }
                    Expr* x = mkExtract(a, lo, n);
                    if (lo) x = mkConcat(x, mkConst(0, lo));
                    return mkZext(x, w);
                }
            }
            if (w == 1 && (isNot(a) ? a->k[0] == b : isNot(b) && b->k[0] == a)) return F();
            break;
        case E_OR:
            if (a == b) return a;
            if (isC(b, 0)) return a;
            if (isC(b, maskw(w))) return b;
            if (w == 1 && (isNot(a) ? a->k[0] == b : isNot(b) && b->k[0] == a)) return T();
            if (!isC(b) && w > 1) { // disjoint halves: 0.x | y.0
                Expr *z = a, *c = b;
                if (z->op != E_ZEXT) std::swap(z, c);
                if (z->op == E_ZEXT) {
                    Expr* cc = c;
                    int cw = w;
                    bool zx = false;
                    if (cc->op == E_ZEXT) { cc = cc->k[0]; cw = cc->w; zx = true; }
                    if (cc->op == E_CONCAT && isC(cc->k[1], 0) && z->k[0]->w <= cc->k[1]->w)
                        return mkZext(mkConcat(cc->k[0], mkZext(z->k[0], cc->k[1]->w)), w);
                    (void)cw; (void)zx;
                }
            }
            break;
        case E_XOR:
            if (a == b) return mkConst(0, w);
            if (isC(b, 0)) return a;
            if (isC(b) && a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
            break;
        default: break;
        }
        // bitwise/add with a constant distributes over an ITE of constants
        if (isC(b) && a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
            return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        if (comm && !isC(b) && a->h0 > b->h0) std::swap(a, b);
        return intern(op, w, 0, 0, a, b);
    }
};

// evaluation under a model (self check of the symbolic semantics)
struct Evaluator {
    std::unordered_map<Expr*, u128> memo;
    const u8* model;
    u128 eval(Expr* e)
    {
        if (e->op == E_CONST) return e->val;
        if (e->op == E_VAR) return model[(int)e->val];
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        u128 a = eval(e->k[0]), b = e->k[1] ? eval(e->k[1]) : 0, c = e->k[2] ? eval(e->k[2]) : 0;
        u128 r = evalop(e->op, e->w, e->k[0]->w, e->lo, a, b, c, e->k[1] ? e->k[1]->w : 0);
        memo[e] = r;
        return r;
    }
};
