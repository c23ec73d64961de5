// Intrinsics and library functions implemented by the engine.
#pragma once
#include <cerrno>

static double dconv(const char* s, char** e, int kind, long double* ld)
{
    errno = 0;
    if (kind == B_STRTOD) { double d = strtod(s, e); *ld = d; return d; }
    if (kind == B_STRTOF) { float d = strtof(s, e); *ld = d; return d; }
    *ld = strtold(s, e);
    return 0;
}
static Expr* popcountE(Expr* x, int w)
{
    Expr* r = P.mkConst(0, w);
    for (int i = 0; i < w; i++) r = P.mkBin(E_ADD, r, P.mkZext(P.mkExtract(x, i, 1), w));
    return r;
}
static bool callBuiltin(DInst& in, Frame& fr, Slot* R)
{
    CallInfo* ci = in.call;
    auto A = [&](int i) -> Slot& { return *SL(R, ci->args[i][0]); };
    auto AW = [&](int i) { return ci->args[i][2]; };
    auto CA = [&](int i, const char* why) { return concretize(A(i), AW(i), why); };
    Slot* D = in.dst >= 0 ? R + in.dst : nullptr;
    auto ret = [&](u128 v) { if (D) D->set(v); };
    int w = in.w;
    switch (ci->builtin) {
    case B_NOP: break;
    case B_MEMCPY: case B_MEMMOVE: {
        u64 n = CA(2, "copy size"), d = CA(0, "copy destination"), s = CA(1, "copy source");
        if (n) {
            if (ci->builtin == B_MEMCPY && ci->callee && d < s + n && s < d + n && d != s) violation("memory", "memcpy of overlapping objects");
            copyMem(d, s, n);
        }
        ret(d);
        break;
    }
    case B_MEMSET: {
        u64 n = CA(2, "fill size"), d = CA(0, "fill destination");
        if (n) {
            checkWrite(d, n);
            memset((void*)d, (u8)A(1).lo, n);
            if (A(1).e) { Expr* e = P.mkExtract(A(1).e, 0, 8); for (u64 i = 0; i < n; i++) setByte(d + i, e); }
            else clearSym(d, n);
        }
        ret(d);
        break;
    }
    case B_LIFE_S: case B_LIFE_E: {
        u64 a = A(1).lo;
        Obj* o = objAt(a);
        if (o && a >= SBASE && o->addr == a) {
            if (ci->builtin == B_LIFE_S) { memset(FL(a), 1, o->size); memset((void*)a, 0xbe, o->size); o->alive = true; }
            else { memset(FL(a), 0, o->size); o->alive = false; }
        }
        break;
    }
    case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
        Slot tmp[64];
        for (u32 i = 0; i < in.n; i++) {
            Slot &a = SL(R, ci->args[0][0])[i], &b = SL(R, ci->args[1][0])[i];
            bool lt = ci->builtin <= B_UMAX ? a.v() < b.v() : sextw(a.v(), w) < sextw(b.v(), w);
            bool mn = ci->builtin == B_UMIN || ci->builtin == B_SMIN;
            u128 v = lt == mn ? a.v() : b.v();
            if (a.e || b.e) {
                Expr *x = X(a, w), *y = X(b, w);
                Expr* c = P.mkCmp(ci->builtin <= B_UMAX ? E_ULT : E_SLT, x, y);
                setE(tmp[i], v, mn ? P.mkIte(c, x, y) : P.mkIte(c, y, x));
            }
            else tmp[i].set(v);
        }
        memcpy((void*)D, (void*)tmp, sizeof(Slot) * in.n);
        break;
    }
    case B_ABS: {
        Slot a = A(0);
        i128 v = sextw(a.v(), w);
        u128 r = (u128)(v < 0 ? -v : v) & maskw(w);
        if (a.e) setE(*D, r, P.mkIte(P.mkCmp(E_SLT, a.e, P.mkConst(0, w)), P.mkBin(E_SUB, P.mkConst(0, w), a.e), a.e));
        else D->set(r);
        break;
    }
    case B_CTLZ: case B_CTTZ: case B_CTPOP: case B_BSWAP: case B_BITREV: {
        std::vector<Slot> tmp(in.n);
        for (u32 i = 0; i < in.n; i++) {
            Slot a = SL(R, ci->args[0][0])[i];
            u128 v = a.v(), r = 0;
            switch (ci->builtin) {
            case B_CTLZ: r = w; for (int k = w - 1; k >= 0; k--) if (v >> k & 1) { r = w - 1 - k; break; } break;
            case B_CTTZ: r = w; for (int k = 0; k < w; k++) if (v >> k & 1) { r = k; break; } break;
            case B_CTPOP: for (int k = 0; k < w; k++) r += v >> k & 1; break;
            case B_BSWAP: for (int k = 0; k < w; k += 8) r |= (v >> k & 0xff) << (w - 8 - k); break;
            default: for (int k = 0; k < w; k++) r |= (v >> k & 1) << (w - 1 - k); break;
            }
            if (a.e) {
                Expr* e = nullptr;
                switch (ci->builtin) {
                case B_CTLZ: e = P.mkConst(w, w); for (int k = 0; k < w; k++) e = P.mkIte(P.mkExtract(a.e, k, 1), P.mkConst(w - 1 - k, w), e); break;
                case B_CTTZ: e = P.mkConst(w, w); for (int k = w - 1; k >= 0; k--) e = P.mkIte(P.mkExtract(a.e, k, 1), P.mkConst(k, w), e); break;
                case B_CTPOP: e = popcountE(a.e, w); break;
                case B_BSWAP: e = P.mkExtract(a.e, 0, 8); for (int k = 8; k < w; k += 8) e = P.mkConcat(e, P.mkExtract(a.e, k, 8)); break;
                default: e = P.mkExtract(a.e, 0, 1); for (int k = 1; k < w; k++) e = P.mkConcat(e, P.mkExtract(a.e, k, 1)); break;
                }
                setE(tmp[i], r, e);
            }
            else tmp[i].set(r);
            // the count of a zero value is poison here: a value no caller can want (compilers hoist it before the test for zero)
            if ((ci->builtin == B_CTLZ || ci->builtin == B_CTTZ) && (A(1).lo & 1)) {
                u128 bad = 2 * w - 1;
                if (a.e) setE(tmp[i], v == 0 ? bad : r, P.mkIte(P.mkEq(a.e, P.mkConst(0, w)), P.mkConst(bad, w), tmp[i].e ? tmp[i].e : P.mkConst(r, w)));
                else if (v == 0) tmp[i].set(bad);
            }
        }
        memcpy((void*)D, (void*)tmp.data(), sizeof(Slot) * in.n);
        break;
    }
    case B_FSHL: case B_FSHR: {
        for (u32 i = 0; i < in.n; i++) {
            Slot a = SL(R, ci->args[0][0])[i], b = SL(R, ci->args[1][0])[i], c = SL(R, ci->args[2][0])[i];
            int s = (int)((u64)concretize(c, w, "rotate amount") % w);
            int lo = ci->builtin == B_FSHL ? w - s : s; // low bit of the window in a:b
            u128 v = lo >= w ? a.v() : lo == 0 ? b.v() : ((a.v() << (w - lo)) | (b.v() >> lo)) & maskw(w);
            if (a.e || b.e) {
                Expr *x = X(a, w), *y = X(b, w), *e;
                if (lo >= w) e = x;
                else if (lo == 0) e = y;
                else e = P.mkConcat(P.mkExtract(x, 0, lo), P.mkExtract(y, lo, w - lo));
                setE(D[i], v, e);
            }
            else D[i].set(v);
        }
        break;
    }
    case B_UADDO: case B_SADDO: case B_USUBO: case B_SSUBO: case B_UMULO: case B_SMULO: {
        Slot a = A(0), b = A(1);
        bool sg = ci->builtin == B_SADDO || ci->builtin == B_SSUBO || ci->builtin == B_SMULO;
        Op op = ci->builtin <= B_SADDO ? E_ADD : ci->builtin <= B_SSUBO ? E_SUB : E_MUL;
        int ww = op == E_MUL ? 2 * w : w + 1;
        if (ww > 128) ww = 128;
        if (w > 64 && op == E_MUL) incomplete("wide multiplication with overflow");
        auto ext = [&](u128 v) { return sg ? (u128)sextw(v, w) & maskw(ww) : v; };
        u128 rv = evalop(op, ww, ww, 0, ext(a.v()), ext(b.v()), 0, 0);
        u128 lo = rv & maskw(w);
        bool ov = rv != ext(lo);
        if (a.e || b.e) {
            auto ee = [&](Expr* e) { return sg ? P.mkSext(e, ww) : P.mkZext(e, ww); };
            Expr* full = P.mkBin(op, ee(X(a, w)), ee(X(b, w)));
            Expr* l = P.mkBin(op, X(a, w), X(b, w));
            Expr* o;
            if (op == E_ADD && !sg) o = P.mkCmp(E_ULT, l, X(a, w));
            else if (op == E_SUB && !sg) o = P.mkCmp(E_ULT, X(a, w), X(b, w));
            else o = P.mkNot(P.mkEq(full, ee(P.mkExtract(full, 0, w))));
            if (!sg && op != E_SUB) {
                Expr* o2 = P.mkCmp(E_ULT, P.mkConst(maskw(w), ww), S.subst(full));
                int k = o2->op == E_CONST ? (int)o2->val : S.above(S.subst(full), maskw(w));
                if (k >= 0) o = P.mkConst((u128)k, 1);
                else o = o2;
            }
            setE(D[0], lo, l);
            setE(D[1], ov, o);
        }
        else { D[0].set(lo); D[1].set(ov); }
        break;
    }
    case B_UADDS: case B_USUBS: case B_SADDS: case B_SSUBS: {
        bool sg = ci->builtin >= B_SADDS, sub = ci->builtin == B_USUBS || ci->builtin == B_SSUBS;
        std::vector<Slot> tmp(in.n);
        for (u32 i = 0; i < in.n; i++) {
            Slot a = SL(R, ci->args[0][0])[i], b = SL(R, ci->args[1][0])[i];
            auto f = [&](u128 x, u128 y) -> u128 {
                if (!sg) { if (sub) return x < y ? 0 : x - y; u128 s = x + y; return s > maskw(w) ? maskw(w) : s; }
                i128 s = sub ? sextw(x, w) - sextw(y, w) : sextw(x, w) + sextw(y, w);
                i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
                return (u128)(s > mx ? mx : s < mn ? mn : s) & maskw(w);
            };
            u128 v = f(a.v(), b.v());
            if (a.e || b.e) {
                if (w > 64) incomplete("wide saturation");
                Expr *x = X(a, w), *y = X(b, w), *e;
                if (!sg && sub) e = P.mkIte(P.mkCmp(E_ULT, x, y), P.mkConst(0, w), P.mkBin(E_SUB, x, y));
                else if (!sg) { Expr* s = P.mkBin(E_ADD, x, y); e = P.mkIte(P.mkCmp(E_ULT, s, x), P.mkConst(maskw(w), w), s); }
                else {
                    Expr* s = P.mkBin(sub ? E_SUB : E_ADD, P.mkSext(x, w + 1), P.mkSext(y, w + 1));
                    u128 mx = maskw(w - 1), mn = ~mx & maskw(w + 1);
                    e = P.mkIte(P.mkCmp(E_SLT, P.mkConst(mx, w + 1), s), P.mkConst(mx, w), P.mkIte(P.mkCmp(E_SLT, s, P.mkConst(mn, w + 1)), P.mkConst(mn, w), P.mkExtract(s, 0, w)));
                }
                setE(tmp[i], v, e);
            }
            else tmp[i].set(v);
        }
        memcpy((void*)D, (void*)tmp.data(), sizeof(Slot) * in.n);
        break;
    }
    case B_TRAP: violation("undefined", "undefined behaviour trap");
    case B_OBJSIZE: ret((A(1).lo & 1) ? 0 : maskw(w)); break;
    case B_ISCONST: ret(0); break;
    case B_RED_OR: case B_RED_AND: case B_RED_ADD: case B_RED_XOR: case B_RED_UMAX: case B_RED_UMIN: case B_RED_SMAX: case B_RED_SMIN: {
        int n = ci->args[0][1], ew = AW(0);
        Slot* a = SL(R, ci->args[0][0]);
        Slot acc = a[0];
        for (int i = 1; i < n; i++) {
            Slot r;
            switch (ci->builtin) {
            case B_RED_OR: binop(E_OR, ew, r, acc, a[i]); break;
            case B_RED_AND: binop(E_AND, ew, r, acc, a[i]); break;
            case B_RED_ADD: binop(E_ADD, ew, r, acc, a[i]); break;
            case B_RED_XOR: binop(E_XOR, ew, r, acc, a[i]); break;
            default: {
                bool sg = ci->builtin >= B_RED_SMAX, mx = ci->builtin == B_RED_UMAX || ci->builtin == B_RED_SMAX;
                bool lt = sg ? sextw(acc.v(), ew) < sextw(a[i].v(), ew) : acc.v() < a[i].v();
                u128 v = lt == mx ? a[i].v() : acc.v();
                if (acc.e || a[i].e) {
                    Expr *x = X(acc, ew), *y = X(a[i], ew), *c = P.mkCmp(sg ? E_SLT : E_ULT, x, y);
                    setE(r, v, mx ? P.mkIte(c, y, x) : P.mkIte(c, x, y));
                }
                else r.set(v);
            }
            }
            acc = r;
        }
        if (w > ew) { u128 v = acc.v(); if (acc.e) setE(acc, v, P.mkZext(acc.e, w)); }
        *D = acc;
        break;
    }
    case B_NEON_PMAX: case B_NEON_PMIN: case B_NEON_PADD: {
        int n = ci->args[0][1], ew = AW(0);
        std::vector<Slot> tmp(n);
        for (int i = 0; i < n; i++) {
            Slot* s = SL(R, ci->args[i < n / 2 ? 0 : 1][0]);
            int k = (i % (n / 2)) * 2;
            Slot &x = s[k], &y = s[k + 1];
            if (ci->builtin == B_NEON_PADD) { binop(E_ADD, ew, tmp[i], x, y); continue; }
            bool mx = ci->builtin == B_NEON_PMAX, lt = x.v() < y.v();
            u128 v = lt == mx ? y.v() : x.v();
            if (x.e || y.e) { Expr *p = X(x, ew), *q = X(y, ew), *c = P.mkCmp(E_ULT, p, q); setE(tmp[i], v, mx ? P.mkIte(c, q, p) : P.mkIte(c, p, q)); }
            else tmp[i].set(v);
        }
        memcpy((void*)D, (void*)tmp.data(), sizeof(Slot) * n);
        break;
    }
    case B_PMOVMSKB: {
        int n = ci->args[0][1];
        Slot* a = SL(R, ci->args[0][0]);
        u128 v = 0;
        Expr* e = nullptr;
        bool sym = false;
        for (int i = 0; i < n; i++) { v |= (u128)(a[i].lo >> 7 & 1) << i; sym |= a[i].e != nullptr; }
        if (sym) {
            for (int i = n - 1; i >= 0; i--) { Expr* b = P.mkExtract(X(a[i], 8), 7, 1); e = e ? P.mkConcat(e, b) : b; }
            setE(*D, v, P.mkZext(e, w));
        }
        else D->set(v);
        break;
    }
    case B_PTESTZ: case B_PTESTC: case B_PTESTNZC: {
        int n = ci->args[0][1], ew = AW(0);
        bool z = true, c = true;
        Expr *ze = P.T(), *ce = P.T();
        bool sym = false;
        for (int i = 0; i < n; i++) {
            Slot &a = SL(R, ci->args[0][0])[i], &b = SL(R, ci->args[1][0])[i];
            z &= (a.v() & b.v()) == 0;
            c &= (~a.v() & b.v() & maskw(ew)) == 0;
            if (a.e || b.e) sym = true;
            ze = P.mkBin(E_AND, ze, P.mkEq(P.mkBin(E_AND, X(a, ew), X(b, ew)), P.mkConst(0, ew)));
            ce = P.mkBin(E_AND, ce, P.mkEq(P.mkBin(E_AND, P.mkNot(X(a, ew)), X(b, ew)), P.mkConst(0, ew)));
        }
        bool v = ci->builtin == B_PTESTZ ? z : ci->builtin == B_PTESTC ? c : !z && !c;
        Expr* e = ci->builtin == B_PTESTZ ? ze : ci->builtin == B_PTESTC ? ce : P.mkBin(E_AND, P.mkNot(ze), P.mkNot(ce));
        if (sym) setE(*D, v, P.mkZext(e, w));
        else D->set(v);
        break;
    }
    case B_TYPEID: ret(typeSel(A(0).lo)); break;
    case B_FABS: for (u32 i = 0; i < in.n; i++) {
        Slot a = SL(R, ci->args[0][0])[i];
        u128 m = maskw(w - 1);
        if (a.e) setE(D[i], a.v() & m, P.mkBin(E_AND, a.e, P.mkConst(m, w))); else D[i].set(a.v() & m);
    } break;
    case B_FPCLASS: {
        Slot a = A(0);
        int fw = AW(0), test = (int)A(1).lo, mb = fMant(fw);
        u128 inf = fInf(fw), minNormal = fw == 80 ? ((u128)1 << 64 | (u128)1 << 63) : (u128)1 << mb, quiet = (u128)1 << (fw == 80 ? 62 : mb - 1);
        auto cls = [&](u128 v) { u128 m = v & maskw(fw - 1); bool n = v >> (fw - 1) & 1; return m > inf ? (m & quiet ? 2 : 1) : m == inf ? (n ? 4 : 512) : m >= minNormal ? (n ? 8 : 256) : m ? (n ? 16 : 128) : n ? 32 : 64; };
        bool v = cls(a.v()) & test;
        if (!a.e) { D->set(v); break; }
        Expr *m = fMag(a.e, fw), *neg = P.mkExtract(a.e, fw - 1, 1);
        auto K = [&](bool x) { return P.mkConst(x, 1); };
        auto two = [&](int ifNeg, int ifPos) { return P.mkIte(neg, K(test & ifNeg), K(test & ifPos)); };
        Expr* r = P.mkIte(P.mkCmp(E_ULT, P.mkConst(inf, fw), m), P.mkIte(P.mkEq(P.mkBin(E_AND, m, P.mkConst(quiet, fw)), P.mkConst(0, fw)), K(test & 1), K(test & 2)),
                  P.mkIte(P.mkEq(m, P.mkConst(inf, fw)), two(4, 512), P.mkIte(P.mkCmp(E_ULE, P.mkConst(minNormal, fw), m), two(8, 256), P.mkIte(P.mkEq(m, P.mkConst(0, fw)), two(32, 64), two(16, 128)))));
        setE(*D, v, r);
        break;
    }
    case B_CEIL: case B_FLOOR: for (u32 i = 0; i < in.n; i++) { Slot& a = SL(R, ci->args[0][0])[i]; concretize(a, w, "floating point operand"); long double f = getF(a, w); putF(D[i], w, ci->builtin == B_CEIL ? ceill(f) : floorl(f)); } break;
    case B_VASTART: {
        if (M->getTargetTriple().find("x86_64") != 0) incomplete("va_start");
        u64 a = CA(0, "va_list"), va = frames.back().va;
        if (!va) incomplete("va_start");
        checkWrite(a, 24);
        clearSym(a, 24);
        u32 used[2] = { 48, 176 }; // the registers are used up
        memcpy((void*)a, used, 8);
        memcpy((void*)(a + 8), &va, 8);
        memcpy((void*)(a + 16), &va, 8);
        break;
    }
    case B_VACOPY: {
        u64 d = CA(0, "va_list"), s = CA(1, "va_list");
        checkRead(s, 24);
        checkWrite(d, 24);
        copyMem(d, s, 24);
        break;
    }
    case B_MALLOC: { u64 n = CA(0, "allocation size"); ret(allocHeap(n, 'm')); break; }
    case B_CALLOC: { u64 n = CA(0, "allocation size") * CA(1, "allocation size"); u64 a = allocHeap(n, 'm'); memset((void*)a, 0, n); ret(a); break; }
    case B_FREE: freeHeap(CA(0, "freed pointer"), 'm'); break;
    case B_NEW: { u64 n = CA(0, "allocation size"); ret(allocHeap(n, 'n')); break; }
    case B_NEWA: { u64 n = CA(0, "allocation size"); ret(allocHeap(n, 'a')); break; }
    case B_NEW_AL: { u64 n = CA(0, "allocation size"); ret(allocHeap(n, 'l', std::max<u64>(16, CA(1, "alignment")))); break; }
    case B_DEL: freeHeap(CA(0, "freed pointer"), 'n'); break;
    case B_DELA: freeHeap(CA(0, "freed pointer"), 'a'); break;
    case B_DEL_AL: freeHeap(CA(0, "freed pointer"), 'l'); break;
    case B_MEMCMP: case B_BCMP: {
        u64 n = CA(2, "compare size"), a = CA(0, "compare pointer"), b = CA(1, "compare pointer");
        if (!n) { ret(0); break; }
        checkRead(a, n);
        checkRead(b, n);
        int cv = memcmp((void*)a, (void*)b, n);
        u32 v = cv < 0 ? (u32)-1 : cv > 0;
        if (rangeSym(a, n) || rangeSym(b, n)) {
            Expr* e = P.mkConst(0, 32);
            if (ci->builtin == B_BCMP) {
                Expr* q = P.T();
                for (u64 i = 0; i < n; i++) q = P.mkBin(E_AND, q, P.mkEq(byteExpr(a + i), byteExpr(b + i)));
                setE(*D, v != 0, P.mkZext(P.mkNot(q), 32));
            }
            else {
                for (u64 i = n; i-- > 0;) {
                    Expr *x = byteExpr(a + i), *y = byteExpr(b + i);
                    e = P.mkIte(P.mkEq(x, y), e, P.mkIte(P.mkCmp(E_ULT, x, y), P.mkConst((u32)-1, 32), P.mkConst(1, 32)));
                }
                setE(*D, v, e);
            }
        }
        else ret(ci->builtin == B_BCMP ? v != 0 : v);
        break;
    }
    case B_MEMCHR: {
        u64 a = CA(0, "search pointer"), n = CA(2, "search size");
        Slot& c = A(1);
        u64 found = 0;
        for (u64 i = 0; i < n; i++) {
            checkRead(a + i, 1);
            bool eq = *(u8*)(a + i) == (u8)c.lo;
            if ((*FL(a + i) & 2) || c.e) eq = branch(P.mkEq(byteExpr(a + i), P.mkExtract(X(c, AW(1)), 0, 8)), eq);
            if (eq) { found = a + i; break; }
        }
        ret(found);
        break;
    }
    case B_EXALLOC: { u64 a = allocHeap(CA(0, "exception size"), 'e'); exns[a] = ExnInfo { 0, 0, 0, false }; ret(a); break; }
    case B_EXFREE: freeHeap(A(0).lo, 'e'); break;
    case B_THROW: {
        u64 x = A(0).lo;
        ExnInfo& i = exns[x];
        i.ti = A(1).lo; i.dtor = A(2).lo; i.thrown = true;
        throwExn(x);
        return true;
    }
    case B_BEGINCATCH: {
        u64 x = A(0).lo;
        exns[x].handlers++;
        caught.push_back(x);
        if (uncaughtExn) uncaughtExn--;
        ret(x);
        break;
    }
    case B_ENDCATCH: {
        if (caught.empty()) violation("exception", "end_catch without exception");
        u64 x = caught.back();
        ExnInfo& i = exns[x];
        if (i.handlers < 0) { caught.pop_back(); i.handlers = -i.handlers - 1; break; } // rethrown
        caught.pop_back();
        if (--i.handlers == 0) {
            // run the destructor; the storage itself stays (not counted as heap)
            if (i.dtor) {
                u64 id = (i.dtor - FBASE) / 16;
                if (id >= funcs.size()) violation("memory", "bad exception destructor");
                DFunc* f = funcs[id];
                if (!f->F->isDeclaration()) {
                    pushFrame(f, nullptr, 2);
                    frames.back().regs[f->argslot[0]].set(x);
                    return true;
                }
            }
        }
        break;
    }
    case B_RETHROW: {
        if (caught.empty()) violation("exception", "rethrow without exception: std::terminate");
        u64 x = caught.back();
        ExnInfo& i = exns[x];
        i.handlers = -i.handlers;
        uncaughtExn++;
        throwExn(x);
        return true;
    }
    case B_ABORT: violation("abort", "abnormal termination through " + ci->name);
    case B_ASSERTFAIL: violation("abort", "assertion failed: " + readStr(A(ci->name[0] == '_' && ci->name[1] == '_' ? 0 : 3).lo));
    case B_GUARD_ACQ: { u64 g = A(0).lo; guardDepth++; checkWrite(g, 8); if (*(u8*)g) guardDepth--; ret(*(u8*)g == 0); break; }
    case B_GUARD_REL: { u64 g = A(0).lo; checkWrite(g, 8); *(u8*)g = 1; guardDepth--; break; }
    case B_ATEXIT: ret(0); break;
    case B_ERRNO: ret(errnoAddr); break;
    case B_UNCAUGHT: ret(uncaughtExn); break;
    case B_STRTOD: case B_STRTOF: case B_STRTOLD: {
        u64 a = CA(0, "string"), ep = CA(1, "string end pointer"), p = a;
        for (;; p++) {
            checkRead(p, 1);
            if (*FL(p) & 2) { Slot s; setE(s, *(u8*)p, SH(p)); concretize(s, 8, "floating point text"); *FL(p) &= ~2; }
            if (!*(char*)p) break;
        }
        char* end;
        long double ld;
        dconv((char*)a, &end, ci->builtin, &ld);
        if (errno) { i32 e = errno; checkWrite(errnoAddr, 4); memcpy((void*)errnoAddr, &e, 4); }
        if (ep) { Slot s; s.set((u64)end); checkWrite(ep, 8); storeLeaf(ep, 8, 64, s); }
        putF(*D, w, ld);
        break;
    }
    case B_VSNPRINTF: incomplete("vsnprintf"); break;
    case B_S_SYMBOLIC: {
        u64 a = CA(0, "input"), n = CA(1, "input size");
        checkWrite(a, n);
        varNames.push_back({ readStr(A(2).lo), (u32)n });
        for (u64 i = 0; i < n; i++) {
            if (nvars >= (u32)MAXVARS) incomplete("too many symbolic bytes");
            *(u8*)(a + i) = model[nvars];
            setByte(a + i, P.mkVar(nvars));
            nvars++;
        }
        break;
    }
    case B_S_ASSUME: {
        Slot& c = A(0);
        bool v = c.lo != 0;
        if (c.e) v = branch(AW(0) == 1 ? c.e : P.mkNot(P.mkEq(c.e, P.mkConst(0, AW(0)))), v);
        if (!v) throw PathEnd { W_ASSUME };
        break;
    }
    case B_S_CHECK: {
        Slot& c = A(0);
        bool v = c.lo != 0;
        ws->checks++;
        if (c.e) {
            ws->checksSym++;
            Expr* e = AW(0) == 1 ? c.e : P.mkNot(P.mkEq(c.e, P.mkConst(0, AW(0))));
            u32 idx = choiceNo++;
            if (!v) violation("check", readStr(A(1).lo));
            if (idx >= bound && e->op != E_CONST) {
                u8 m[MAXVARS];
                memcpy(m, model, MAXVARS);
                SatRes r = S.query(P.mkNot(e), m);
                if (r == R_SAT) pushItem(m, idx + 1); // that run fails the check concretely and reports it
                else if (r == R_UNKNOWN) noteReason("solver returned unknown on a check: " + readStr(A(1).lo));
            }
            addPC(e);
        }
        else if (!v) violation("check", readStr(A(1).lo));
        break;
    }
    case B_S_FAIL: violation("check", readStr(A(0).lo));
    case B_S_REACH: {
        std::string s = readStr(A(0).lo, 63);
        Lock l;
        int k = 0;
        while (k < sh->nlab && strcmp(sh->lab[k].name, s.c_str())) k++;
        if (k == sh->nlab && k < MAXLAB) { strcpy(sh->lab[k].name, s.c_str()); sh->lab[k].count = 0; sh->nlab++; }
        if (k < MAXLAB) sh->lab[k].count++;
        break;
    }
    case B_S_PARAM: { u64 i = A(0).lo; ret(i < opt.params.size() ? (u64)opt.params[i] & maskw(w) : 0); break; }
    case B_S_OBSERVE: observed.push_back(A(0).lo & (u64)maskw(AW(0))); break;
    case B_S_HEAPLIVE: ret(heapLive); break;
    case B_S_CONC: { u64 v = CA(0, "symx_conc"); ret(v); break; }
    case B_S_FREEZE: freeze(A(0).lo & 1); break;
    case B_S_PIN: {
        u64 a = CA(0, "address"), n = CA(1, "size");
        bool some = false;
        for (u64 i = 0; i < n; i++) {
            if (!(*FL(a + i) & 2)) continue;
            Expr* e = SH(a + i);
            addPC(P.mkEq(e, P.mkConst(*(u8*)(a + i), 8)));
            *FL(a + i) &= ~2;
            some = true;
        }
        if (some) noteReason("one text of each kind is read");
        break;
    }
    case B_S_OPAQUE: *D = A(0); break;
    case B_S_ISNATIVE: ret(0); break;
    case B_S_DONE: throw PathEnd { W_DONE };
    case B_S_PRINT: if (opt.verbose) fprintf(stderr, "print: %s %llu\n", readStr(A(0).lo).c_str(), (unsigned long long)A(1).lo); break;
    case B_UNKNOWN_INTR: incomplete("unsupported intrinsic: " + ci->name);
    default: incomplete("unsupported builtin: " + ci->name);
    }
    return false;
}
