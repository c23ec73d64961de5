// The interpreter: concrete execution with a symbolic shadow.
#pragma once

static inline Slot* SL(Slot* regs, i32 o) { return o >= 0 ? regs + o : &constPool[~o]; }
static inline Expr* X(const Slot& s, int w) { return s.e ? s.e : P.mkConst(s.v(), w); }
static inline void setE(Slot& s, u128 v, Expr* e)
{
    s.lo = (u64)v; s.hi = (u64)(v >> 64);
    s.e = e->op == E_CONST ? nullptr : e;
}

// ------------------------------------------------------------------ choices
static Evaluator evl;
static void selfcheck(Expr* e, u128 conc)
{
    ws->selfchecks++;
    evl.memo.clear();
    evl.model = model;
    u128 v = evl.eval(e);
    if (v != conc) {
        ws->selffail++;
        fprintf(stderr, "SELF-CHECK FAILURE: expression and concrete value differ (w=%d op=%d) in\n%s", e->w, e->op, stackTrace().c_str());
        incomplete("self-check failure");
    }
}
static void pushItem(const u8* m, u32 b)
{
    WItem it;
    it.bound = b; it.nvars = nvars;
    memcpy(it.model, m, MAXVARS);
    localStack.push_back(it);
    ws->forks++;
}
static void tryFlip(Expr* c, u32 idx)
{
    u8 m[MAXVARS];
    memcpy(m, model, MAXVARS);
    SatRes r = S.query(c, m);
    if (r == R_SAT) pushItem(m, idx + 1);
    else if (r == R_UNKNOWN) noteReason("solver returned unknown on a branch");
}
static void addPC(Expr* c) { S.add(c); }
// a symbolic two-way decision; conc is the value under the current model
static bool branch(Expr* c, bool conc)
{
    if (c->op == E_CONST) return c->val;
    if ((rnd() & 1023) == 0) selfcheck(c, conc);
    c = S.subst(c);
    if (c->op == E_CONST) return c->val;
    Expr* t = conc ? c : P.mkNot(c);
    u32 idx = choiceNo++;
    ws->decisions++;
    if (idx >= bound) tryFlip(P.mkNot(t), idx);
    addPC(t);
    return conc;
}
static u128 concretize(Slot& s, int w, const char* why)
{
    if (!s.e) return s.v();
    u128 cv = s.v();
    Expr* e = s.e;
    if ((rnd() & 255) == 0) selfcheck(e, cv);
    e = S.subst(e);
    if (e->op == E_CONST) { s.e = nullptr; return cv; }
    u32 idx = choiceNo++;
    ws->concr++;
    if (idx >= bound) {
        Expr* ex = P.mkNot(P.mkEq(e, P.mkConst(cv, w)));
        int n = 0;
        for (;;) {
            u8 m[MAXVARS];
            memcpy(m, model, MAXVARS);
            SatRes r = S.query(ex, m);
            if (r == R_UNSAT) break;
            if (r == R_UNKNOWN) { noteReason("solver returned unknown on a value"); break; }
            if (++n > 600) { noteReason(std::string("more than 600 values: ") + why); break; }
            pushItem(m, idx + 1);
            evl.memo.clear();
            evl.model = m;
            u128 nv = evl.eval(e);
            ex = P.mkBin(E_AND, ex, P.mkNot(P.mkEq(e, P.mkConst(nv, w))));
        }
    }
    addPC(P.mkEq(e, P.mkConst(cv, w)));
    s.e = nullptr;
    return cv;
}
static u64 concA(Slot& s, const char* why) { return (u64)concretize(s, 64, why); }

// ------------------------------------------------------------------ memory access
static Obj* findObj(std::vector<Obj>& v, u64 a)
{
    size_t lo = 0, hi = v.size();
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (v[m].addr <= a) lo = m + 1;
        else hi = m;
    }
    return lo ? &v[lo - 1] : nullptr;
}
static Obj* objAt(u64 a)
{
    Obj* o = nullptr;
    if (a >= ABASE && a < HBASE) o = findObj(gobjs, a);
    else if (a >= HBASE && a < SBASE) o = findObj(hobjs, a);
    else if (a >= SBASE && a < ABASE + ASIZE) o = findObj(sobjs, a);
    return o;
}
static std::string describe(u64 a, u64 n)
{
    char b[256];
    Obj* o = objAt(a);
    if (a < 4096) snprintf(b, sizeof b, "null pointer access (%llu bytes at %llu)", (unsigned long long)n, (unsigned long long)a);
    else if (!o) snprintf(b, sizeof b, "wild pointer access (%llu bytes at %#llx)", (unsigned long long)n, (unsigned long long)a);
    else snprintf(b, sizeof b, "%llu byte access at offset %lld of a %llu byte %s object%s", (unsigned long long)n, (long long)(a - o->addr), (unsigned long long)o->size,
                  a < HBASE ? "global" : a < SBASE ? "heap" : "stack", o->alive ? "" : " that was freed");
    return b;
}
[[noreturn]] static void badAccess(u64 a, u64 n, bool wr)
{
    violation("memory", std::string(wr ? "invalid write: " : "invalid read: ") + describe(a, n));
}
static inline bool rangeAlive(u64 a, u64 n)
{
    if (!inArena(a, n)) return false;
    u8* f = FL(a);
    while (n >= 8) {
        u64 x;
        memcpy(&x, f, 8);
        if ((x & 0x0101010101010101ull) != 0x0101010101010101ull) return false;
        f += 8; n -= 8;
    }
    while (n--) if (!(*f++ & 1)) return false;
    return true;
}
static inline bool rangeSym(u64 a, u64 n)
{
    u8* f = FL(a);
    while (n >= 8) {
        u64 x;
        memcpy(&x, f, 8);
        if (x & 0x0202020202020202ull) return true;
        f += 8; n -= 8;
    }
    while (n--) if (*f++ & 2) return true;
    return false;
}
static inline void clearSym(u64 a, u64 n)
{
    u8* f = FL(a);
    while (n >= 8) {
        u64 x;
        memcpy(&x, f, 8);
        if (x & 0x0202020202020202ull) { x &= ~0x0202020202020202ull; memcpy(f, &x, 8); }
        f += 8; n -= 8;
    }
    while (n--) *f++ &= ~2;
}
static inline Expr* byteExpr(u64 a) { return (*FL(a) & 2) ? SH(a) : P.mkConst(*(u8*)a, 8); }
static void checkRead(u64 a, u64 n) { if (!rangeAlive(a, n)) badAccess(a, n, false); }
// memory other threads can see (flag bit 8): written only through atomics and guarded initialisation
static int guardDepth = 0;
static bool frozen = false;
static void frozenWrite(u64 a, u64 n, const char* what)
{
    if (guardDepth && a < HBASE) return;
    violation("race", std::string(what) + " memory that another thread can read: " + describe(a, n));
}
static inline void checkFrozen(u64 a, u64 n)
{
    for (u64 i = 0; i < n; i++) if (*FL(a + i) & 8) { frozenWrite(a, n, "write to"); return; }
}
static void checkWrite(u64 a, u64 n, bool atomic = false)
{
    if (!rangeAlive(a, n)) badAccess(a, n, true);
    if (frozen && !atomic) checkFrozen(a, n);
    if (n && (*FL(a) & 4)) violation("memory", "write to constant memory: " + describe(a, n));
}
static void loadLeaf(u64 a, u32 bytes, u32 w, Slot& out)
{
    u128 v = 0;
    memcpy(&v, (void*)a, bytes);
    if (rangeSym(a, bytes)) {
        Expr* e = byteExpr(a + bytes - 1);
        for (int i = (int)bytes - 2; i >= 0; i--) e = P.mkConcat(e, byteExpr(a + i));
        if (e->w > w) e = P.mkExtract(e, 0, w);
        if (w < 128) v &= maskw(w);
        setE(out, v, e);
        return;
    }
    if (w < bytes * 8) v &= maskw(w);
    out.set(v);
}
static void setByte(u64 a, Expr* e)
{
    if (e->op == E_CONST) { *FL(a) &= ~2; return; }
    if (!(*FL(a) & 2)) { *FL(a) |= 2; symBytes.push_back(a); }
    SH(a) = e;
}
static void storeLeaf(u64 a, u32 bytes, u32 w, const Slot& s)
{
    u128 v = s.v();
    memcpy((void*)a, &v, bytes);
    if (s.e) {
        Expr* e = s.e;
        if (e->w < bytes * 8) e = P.mkZext(e, bytes * 8);
        for (u32 i = 0; i < bytes; i++) setByte(a + i, P.mkExtract(e, i * 8, 8));
    }
    else clearSym(a, bytes);
}
static void copyMem(u64 d, u64 s, u64 n)
{
    if (!n) return;
    checkRead(s, n);
    checkWrite(d, n);
    bool sym = rangeSym(s, n);
    if (sym) {
        std::vector<Expr*> t(n, nullptr);
        for (u64 i = 0; i < n; i++) if (*FL(s + i) & 2) t[i] = SH(s + i);
        memmove((void*)d, (void*)s, n);
        for (u64 i = 0; i < n; i++)
            if (t[i]) setByte(d + i, t[i]);
            else *FL(d + i) &= ~2;
    }
    else {
        memmove((void*)d, (void*)s, n);
        clearSym(d, n);
    }
}
// resolve an address for an access of n bytes; afterwards the address is concrete
// except for reads from constant tables, where it stays symbolic (returns the object)
static Obj* resolve(Slot& p, u64 n, bool wr, bool atomic = false)
{
    if (!p.e) {
        if (wr) checkWrite(p.lo, n, atomic);
        else checkRead(p.lo, n);
        return nullptr;
    }
    u64 a = p.lo;
    Obj* o = objAt(a);
    if (o && o->alive && a >= o->addr && a + n <= o->addr + o->size && o->size <= 4096) {
        // stay inside this object on this path; the other side is explored on its own
        Expr* off = P.mkBin(E_SUB, p.e, P.mkConst(o->addr, 64));
        Expr* in = P.mkCmp(E_ULE, off, P.mkConst(o->size - n, 64));
        branch(in, true);
        if (!wr && o->kind == 'r') return o;
    }
    concA(p, "address");
    if (wr) checkWrite(p.lo, n, atomic);
    else checkRead(p.lo, n);
    return nullptr;
}
static u64 allocHeap(u64 n, u8 kind, u64 align = 16)
{
    u64 a = (htop + 32 + align - 1) & ~(align - 1);
    if (n > HSIZE / 4) incomplete("allocation larger than the modelled heap");
    if (a + n + 64 > SBASE) violation("hang", "more memory than the modelled heap");
    htop = a + n;
    memset((void*)a, 0xbe, n);
    memset(FL(a), 1, n);
    hobjs.push_back({ a, n, true, kind });
    if (kind != 'e' && kind != 'm') heapLive++;
    return a;
}
static void freeHeap(u64 a, u8 kind)
{
    if (!a) return;
    Obj* o = a >= HBASE && a < SBASE ? findObj(hobjs, a) : nullptr;
    if (!o || o->addr != a) violation("memory", "free of a pointer that is not the start of a heap object");
    if (!o->alive) violation("memory", "double free");
    if (o->kind != kind) violation("memory", "allocation and deallocation functions do not match");
    if (frozen && (*FL(a) & 8)) violation("race", "free of memory that another thread can read");
    o->alive = false;
    memset(FL(a), 0, o->size);
    memset((void*)a, 0xdd, o->size);
    if (kind != 'e' && kind != 'm') heapLive--;
}

// ------------------------------------------------------------------ frames
static void pushFrame(DFunc* f, DInst* callInst, int special)
{
    if (!f->decoded) decode(f);
    if (regtop + f->nslots > regfile.size()) violation("stack", "stack overflow (register file)");
    if (frames.size() > 20000) violation("stack", "stack overflow (more than 20000 frames)");
    Frame fr;
    fr.f = f; fr.regs = regfile.data() + regtop; fr.pc = 0; fr.callInst = callInst;
    fr.stackMark = stop_; fr.sobjMark = sobjs.size(); fr.special = special; fr.nvar = 0; fr.va = 0;
    regtop += f->nslots;
    frames.push_back(fr);
    covFuncs[f->id] = 1;
    covBlocks[f->blockBase] = 1;
}
static void popFrame()
{
    Frame& fr = frames.back();
    if (stop_ > fr.stackMark) memset(FL(fr.stackMark), 0, stop_ - fr.stackMark);
    stop_ = fr.stackMark;
    sobjs.resize(fr.sobjMark);
    regtop -= fr.f->nslots;
    frames.pop_back();
}
static void freezeOff()
{
    if (!frozen) return;
    frozen = false;
    for (auto* v : { &gobjs, &hobjs, &sobjs })
        for (auto& o : *v) for (u64 i = 0; i < o.size; i++) *FL(o.addr + i) &= ~8;
}
static u64 symAddr(const char* n);
// everything but what the running function itself, and the thread's own variables, occupy
static void freeze(bool on)
{
    u64 st = symAddr("__libc_single_threaded");
    if (!on) { freezeOff(); if (st) *(u8*)st = 1; return; }
    frozen = true;
    for (auto& g : gobjs) if (g.kind != 'r' && g.addr != errnoAddr && !tlsGlobals.count(g.addr)) for (u64 i = 0; i < g.size; i++) *FL(g.addr + i) |= 8;
    for (auto& o : hobjs) if (o.alive) for (u64 i = 0; i < o.size; i++) *FL(o.addr + i) |= 8;
    for (u64 k = 0; k < frames.back().sobjMark; k++) { auto& o = sobjs[k]; if (o.alive) for (u64 i = 0; i < o.size; i++) *FL(o.addr + i) |= 8; }
    if (st) *(u8*)st = 0;
}
static u64 allocStack(u64 n, u64 align)
{
    u64 a = (stop_ + 16 + align - 1) & ~(align - 1);
    if (a + n + 64 > ABASE + ASIZE) violation("stack", "stack overflow (memory)");
    stop_ = a + n + 16;
    memset((void*)a, 0xbe, n);
    memset(FL(a), 1, n);
    sobjs.push_back({ a, n, true, 's' });
    return a;
}
static void takeEdge(Frame& fr, Edge& e)
{
    size_t k = e.moves.size();
    if (k == 1) {
        auto& m = e.moves[0];
        Slot* s = SL(fr.regs, m[1]);
        if (m[2] == 1) fr.regs[m[0]] = *s;
        else memmove(fr.regs + m[0], s, sizeof(Slot) * m[2]);
    }
    else if (k) {
        static thread_local std::vector<Slot> tmp;
        tmp.clear();
        for (auto& m : e.moves) { Slot* s = SL(fr.regs, m[1]); tmp.insert(tmp.end(), s, s + m[2]); }
        size_t j = 0;
        for (auto& m : e.moves) { memcpy((void*)(fr.regs + m[0]), (void*)&tmp[j], sizeof(Slot) * m[2]); j += m[2]; }
    }
    fr.pc = e.target;
    covBlocks[fr.f->blockBase + e.block] = 1;
}

// ------------------------------------------------------------------ exceptions
static u64 symAddr(const char* n)
{
    if (auto* g = M->getNamedGlobal(n)) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; }
    return 0;
}
static u64 vtSI, vtVMI;
static bool derives(u64 ti, u64 want)
{
    if (ti == want) return true;
    if (!rangeAlive(ti, 16)) return false;
    u64 vp = *(u64*)ti;
    if (vtSI && vp == vtSI + 16) return derives(*(u64*)(ti + 16), want);
    if (vtVMI && vp == vtVMI + 16) {
        u32 n = *(u32*)(ti + 20);
        for (u32 i = 0; i < n; i++) if (derives(*(u64*)(ti + 24 + 16 * i), want)) return true;
    }
    return false;
}
// unwind from the current top frame; the frame on top is the one containing the call/invoke
static void unwind(u64 exn)
{
    ExnInfo& info = exns[exn];
    // phase one: is there a handler at all?
    bool handled = false;
    for (size_t i = frames.size(); i-- > 0 && !handled;) {
        Frame& fr = frames[i];
        DInst& ci = fr.f->code[fr.pc];
        if (ci.op != D_INVOKE) { if (fr.special) break; continue; }
        u32 b = (*ci.edges)[1].block;
        for (auto& c : fr.f->pads[b]) if (c.isCatch && (!c.ti || derives(info.ti, c.ti))) handled = true;
    }
    if (!handled) {
        std::string tn = "?";
        if (rangeAlive(info.ti, 16)) { u64 np = *(u64*)(info.ti + 8); if (inArena(np, 1)) tn = demangle(std::string("_Z") + (const char*)np); if (inArena(np, 1)) tn = std::string((const char*)np); }
        violation("exception", "uncaught exception of type " + tn);
    }
    for (;;) {
        Frame& fr = frames.back();
        DInst& ci = fr.f->code[fr.pc];
        if (ci.op == D_INVOKE) {
            Edge& e = (*ci.edges)[1];
            u64 sel = 0;
            bool land = fr.f->padCleanup[e.block];
            for (auto& c : fr.f->pads[e.block])
                if (c.isCatch && (!c.ti || derives(info.ti, c.ti))) { sel = c.ti ? c.ti : 1; land = true; break; }
            if (land) {
                i32 dst = fr.f->padDst[e.block];
                takeEdge(fr, e);
                fr.regs[dst].set(exn);
                fr.regs[dst + 1].set(sel ? (sel == 1 ? 1 : (u32)(sel - ABASE + 16)) : 0);
                return;
            }
        }
        if (fr.special) violation("exception", "exception escaped");
        popFrame();
    }
}
static u32 typeSel(u64 ti) { return ti ? (u32)(ti - ABASE + 16) : 1; }

// ------------------------------------------------------------------ operations
static void binop(Op op, int w, Slot& d, Slot& a, Slot& b)
{
    bool div = op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM;
    if (div) {
        if (b.e) branch(P.mkNot(P.mkEq(b.e, P.mkConst(0, w))), b.v() != 0);
        if (b.v() == 0) violation("arithmetic", "division by zero");
    }
    u128 r;
    if (w <= 64 && !div && op < E_SHL) {
        u64 x = a.lo, y = b.lo;
        r = op == E_ADD ? x + y : op == E_SUB ? x - y : x * y;
        r = (u64)r & (u64)maskw(w);
    }
    else r = evalop(op, w, w, 0, a.v(), b.v(), 0, 0);
    if (a.e && !b.e && (op == E_UDIV || op == E_UREM))
        if (Expr* q = S.divide(a.e, b.v(), op == E_UREM)) { setE(d, r, q); return; }
    if (a.e || b.e) setE(d, r, P.mkBin(op, X(a, w), X(b, w)));
    else d.set(r);
}
static bool icmpc(int p, int w, u128 a, u128 b)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w);
    case CmpInst::ICMP_SLE: return sextw(a, w) <= sextw(b, w);
    case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w);
    default: return sextw(a, w) >= sextw(b, w);
    }
}
static Expr* icmpe(int p, Expr* a, Expr* b)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return P.mkEq(a, b);
    case CmpInst::ICMP_NE: return P.mkNot(P.mkEq(a, b));
    case CmpInst::ICMP_ULT: return P.mkCmp(E_ULT, a, b);
    case CmpInst::ICMP_ULE: return P.mkCmp(E_ULE, a, b);
    case CmpInst::ICMP_UGT: return P.mkCmp(E_ULT, b, a);
    case CmpInst::ICMP_UGE: return P.mkCmp(E_ULE, b, a);
    case CmpInst::ICMP_SLT: return P.mkCmp(E_SLT, a, b);
    case CmpInst::ICMP_SLE: return P.mkCmp(E_SLE, a, b);
    case CmpInst::ICMP_SGT: return P.mkCmp(E_SLT, b, a);
    default: return P.mkCmp(E_SLE, b, a);
    }
}
static void icmp(int p, int w, Slot& d, Slot& a, Slot& b)
{
    bool r = w <= 64 && p <= CmpInst::ICMP_NE ? (p == CmpInst::ICMP_EQ) == (a.lo == b.lo) : icmpc(p, w, a.v(), b.v());
    if (a.e || b.e) setE(d, r, icmpe(p, X(a, w), X(b, w)));
    else d.set(r);
}
static long double getF(const Slot& s, int w)
{
    if (w == 32) { float f; memcpy(&f, &s.lo, 4); return f; }
    if (w == 64) { double f; memcpy(&f, &s.lo, 8); return f; }
    long double f = 0;
    u128 v = s.v();
    memcpy(&f, &v, 10);
    return f;
}
static void putF(Slot& s, int w, long double x)
{
    u128 v = 0;
    if (w == 32) { float f = (float)x; memcpy(&v, &f, 4); }
    else if (w == 64) { double f = (double)x; memcpy(&v, &f, 8); }
    else memcpy(&v, &x, 10);
    s.set(v);
}
// symbolic floating-point operands, as bit patterns
static int fMant(int w) { return w == 32 ? 23 : w == 64 ? 52 : 64; } // bits below the exponent (80 bits: the integer bit among them)
static u128 fInf(int w) { return w == 32 ? (u128)0xff << 23 : w == 64 ? (u128)0x7ff << 52 : (u128)0x7fff << 64 | (u128)1 << 63; }
static Expr* fMag(Expr* e, int w) { return P.mkZext(P.mkExtract(e, 0, w - 1), w); }
static Expr* fKey(Expr* e, int w) // unsigned order of keys is the order of numbers, zeros apart
{
    Expr* neg = P.mkExtract(e, w - 1, 1);
    return P.mkIte(neg, P.mkNot(e), P.mkBin(E_OR, e, P.mkConst((u128)1 << (w - 1), w)));
}
static void fcmp(u32 p, int w, Slot& d, Slot& a, Slot& b)
{
    long double x = getF(a, w), y = getF(b, w);
    bool un = std::isnan(x) || std::isnan(y), r = un ? p & 8 : x == y ? p & 1 : x > y ? p & 2 : p & 4; // bits: 0 eq, 1 gt, 2 lt, 3 unordered
    if (!a.e && !b.e) { d.set(r); return; }
    Expr *ea = X(a, w), *eb = X(b, w), *inf = P.mkConst(fInf(w), w), *one = P.mkConst(1, 1), *zero = P.mkConst(0, 1);
    Expr* isun = P.mkBin(E_OR, P.mkCmp(E_ULT, inf, fMag(ea, w)), P.mkCmp(E_ULT, inf, fMag(eb, w)));
    Expr* bothZero = P.mkEq(P.mkBin(E_OR, fMag(ea, w), fMag(eb, w)), P.mkConst(0, w));
    Expr* eq = P.mkBin(E_OR, P.mkEq(ea, eb), bothZero);
    Expr* lt = P.mkCmp(E_ULT, fKey(ea, w), fKey(eb, w));
    Expr* res = P.mkIte(isun, p & 8 ? one : zero, P.mkIte(eq, p & 1 ? one : zero, P.mkIte(lt, p & 4 ? one : zero, p & 2 ? one : zero)));
    setE(d, r, res);
}
// float to double, exactly; forks on the kind of number so that the result stays a plain arrangement of bits
static bool fext32(Slot& d, Slot& a)
{
    Expr *e = X(a, 32), *sign = P.mkExtract(e, 31, 1), *ex = P.mkExtract(e, 23, 8), *m = P.mkExtract(e, 0, 23);
    u32 v = (u32)a.lo, cx = v >> 23 & 0xff, cm = v & 0x7fffff;
    Expr* r;
    if (branch(P.mkEq(ex, P.mkConst(0, 8)), cx == 0)) {
        if (branch(P.mkEq(m, P.mkConst(0, 23)), cm == 0)) r = P.mkConcat(sign, P.mkConst(0, 63));
        else {
            int top = 31 - __builtin_clz(cm | 1), at = 22;
            while (at > 0 && !branch(P.mkEq(P.mkExtract(m, at, 1), P.mkConst(1, 1)), at == top)) at--;
            Expr* frac = at ? P.mkConcat(P.mkExtract(m, 0, at), P.mkConst(0, 52 - at)) : P.mkConst(0, 52);
            r = P.mkConcat(sign, P.mkConcat(P.mkConst((u128)(1023 - 149 + at), 11), frac));
        }
    }
    else {
        bool sp = branch(P.mkEq(ex, P.mkConst(0xff, 8)), cx == 0xff);
        Expr* ne = sp ? P.mkConst(0x7ff, 11) : P.mkBin(E_ADD, P.mkZext(ex, 11), P.mkConst(896, 11));
        r = P.mkConcat(sign, P.mkConcat(ne, P.mkConcat(m, P.mkConst(0, 29))));
    }
    Slot t;
    putF(t, 64, getF(a, 32));
    setE(d, t.v(), r);
    return true;
}
// double to float where it is plainly exact
static bool ftrunc64(Slot& d, Slot& a)
{
    Expr *e = X(a, 64), *sign = P.mkExtract(e, 63, 1), *ex = P.mkExtract(e, 52, 11), *low = P.mkExtract(e, 0, 29);
    if (low->op != E_CONST || low->val) return false;
    u64 v = a.lo;
    u32 cx = v >> 52 & 0x7ff;
    Expr* r;
    if (ex->op == E_CONST && ex->val > 0 && ex->val <= 896) {
        int sh = 897 - (int)ex->val; // 1.m shifted right by sh + 29
        if (sh > 23) return false;
        Expr* full = P.mkConcat(P.mkConst(1, 1), P.mkExtract(e, 29, 23));
        Expr* drop = P.mkExtract(full, 0, sh);
        if (drop->op != E_CONST || drop->val) return false;
        r = P.mkConcat(sign, P.mkZext(P.mkExtract(full, sh, 24 - sh), 31));
    }
    else if (ex->op == E_CONST && ex->val == 0) {
        if (P.mkExtract(e, 29, 23)->op != E_CONST) return false;
        r = P.mkConcat(sign, P.mkConst(0, 31));
    }
    else {
        Expr* in = P.mkBin(E_AND, P.mkCmp(E_ULE, P.mkConst(897, 11), ex), P.mkCmp(E_ULE, ex, P.mkConst(1150, 11)));
        if (!branch(in, cx >= 897 && cx <= 1150)) return false;
        r = P.mkConcat(sign, P.mkConcat(P.mkExtract(P.mkBin(E_SUB, ex, P.mkConst(896, 11)), 0, 8), P.mkExtract(e, 29, 23)));
    }
    Slot t;
    putF(t, 32, getF(a, 64));
    setE(d, t.v(), r);
    return true;
}
static void doSelect(DInst& in, Slot* R)
{
    Slot* c = SL(R, in.a);
    Slot *t = SL(R, in.b), *f = SL(R, in.c), *d = R + in.dst;
    if (!in.sub && (!c->e || in.imm)) {
        bool v = c->lo & 1;
        if (c->e) v = branch(c->e, v);
        memmove((void*)d, (void*)(v ? t : f), sizeof(Slot) * in.n);
        return;
    }
    for (u32 i = 0; i < in.n; i++) {
        Slot cc = in.sub ? c[i] : *c;
        Slot r = (cc.lo & 1) ? t[i] : f[i];
        if (cc.e) { int w = in.ti->leaves[i].w; setE(r, r.v(), P.mkIte(cc.e, X(t[i], w), X(f[i], w))); }
        d[i] = r;
    }
}
static void doBitcast(DInst& in, Slot* R)
{
    Slot* s = SL(R, in.a);
    u32 n1 = in.imm, w1 = in.w2, n2 = in.n, w2 = in.w;
    std::vector<Slot> out(n2);
    if (w2 <= w1) {
        u32 k = w1 / w2;
        for (u32 i = 0; i < n2; i++) {
            Slot& x = s[i / k];
            u32 lo = (i % k) * w2;
            u128 v = (x.v() >> lo) & maskw(w2);
            if (x.e) setE(out[i], v, P.mkExtract(x.e, lo, w2));
            else out[i].set(v);
        }
    }
    else {
        u32 k = w2 / w1;
        for (u32 i = 0; i < n2; i++) {
            u128 v = 0;
            bool sym = false;
            for (u32 j = 0; j < k; j++) { v |= s[i * k + j].v() << (j * w1); sym |= s[i * k + j].e != nullptr; }
            if (sym) {
                Expr* e = X(s[i * k + k - 1], w1);
                for (int j = (int)k - 2; j >= 0; j--) e = P.mkConcat(e, X(s[i * k + j], w1));
                setE(out[i], v, e);
            }
            else out[i].set(v);
        }
    }
    (void)n1;
    memcpy((void*)(R + in.dst), (void*)out.data(), sizeof(Slot) * n2);
}
// read of constant memory at a symbolic offset: an if-then-else over runs of equal values
static void tableLoad(Obj* o, Slot p, DInst& in, Slot* R)
{
    u64 n = in.bytes, cnt = o->size - n + 1;
    u64 step = 1;
    Expr* off = P.mkBin(E_SUB, p.e, P.mkConst(o->addr, 64));
    if (o->size % n == 0 && n > 1) {
        // aligned accesses: check with the solver before relying on it
        Expr* mis = P.mkNot(P.mkEq(P.mkBin(E_UREM, off, P.mkConst(n, 64)), P.mkConst(0, 64)));
        if (S.query(mis, nullptr) == R_UNSAT) step = n;
    }
    if (in.n != 1 || n > 16 || cnt / step > 2048) { concA(p, "table address"); checkRead(p.lo, n); for (u32 i = 0; i < in.n; i++) loadLeaf(p.lo + in.ti->leaves[i].off, in.ti->leaves[i].bytes, in.ti->leaves[i].w, R[in.dst + i]); return; }
    Slot cur;
    loadLeaf(p.lo, n, in.w, cur);
    u128 conc = cur.v();
    // values from the last offset down, merging runs
    Expr* r = nullptr;
    u128 prev = 0;
    u64 last = (cnt - 1) / step * step;
    for (u64 i = 0; i <= last; i += step) {
        u64 k = last - i;
        u128 v = 0;
        memcpy(&v, (void*)(o->addr + k), n);
        v &= maskw(in.w);
        if (!r) r = P.mkConst(v, in.w);
        else if (v != prev) r = P.mkIte(P.mkCmp(E_ULE, off, P.mkConst(k, 64)), P.mkConst(v, in.w), r);
        prev = v;
    }
    setE(R[in.dst], conc, S.asVar(r));
}

static std::string readStr(u64 a, size_t max = 200)
{
    std::string s;
    while (s.size() < max && rangeAlive(a, 1) && *(char*)a) s += *(char*)a++;
    return s;
}
static void throwExn(u64 exn) { ws->throws_++; uncaughtExn++; unwind(exn); }
static bool callBuiltin(DInst& in, Frame& fr, Slot* R); // true: control was transferred
static void finishCall(Frame& fr, DInst& in)
{
    if (in.op == D_INVOKE) takeEdge(fr, (*in.edges)[0]);
    else fr.pc++;
}
// variable arguments: all of them in memory, 8 bytes each (long double and structs by value as in the System V ABI)
static void passVariable(CallInfo* ci, size_t first, Slot* R)
{
    std::vector<u64> at;
    u64 n = 0;
    for (size_t i = first; i < ci->args.size(); i++) {
        Type* t = ci->cb->getArgOperand(i)->getType();
        u64 sz = ci->byval[i] ? ci->byval[i] : t->isX86_FP80Ty() ? 16 : 8;
        if (t->isX86_FP80Ty() || (ci->byval[i] && ci->cb->getParamAlign(i).valueOrOne().value() > 8)) n = (n + 15) & ~15ull;
        at.push_back(n);
        n += (sz + 7) & ~7ull;
    }
    u64 va = allocStack(std::max<u64>(n, 8), 16);
    for (size_t i = first; i < ci->args.size(); i++) {
        auto& a = ci->args[i];
        Slot* s = SL(R, a[0]);
        u64 to = va + at[i - first];
        if (ci->byval[i]) { copyMem(to, concA(*s, "byval"), ci->byval[i]); continue; }
        Type* t = ci->cb->getArgOperand(i)->getType();
        if (a[1] != 1 || (!t->isIntegerTy() && !t->isPointerTy() && !t->isDoubleTy() && !t->isX86_FP80Ty())) incomplete("variable argument of an unsupported type");
        u32 w = t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits();
        storeLeaf(to, t->isPointerTy() ? 8 : (w + 7) / 8, w, *s);
    }
    frames.back().va = va;
}
static void doCall(DInst& in)
{
    Frame& fr = frames.back();
    Slot* R = fr.regs;
    CallInfo* ci = in.call;
    DFunc* f = ci->callee;
    if (!f && ci->builtin < 0) {
        Slot* t = SL(R, ci->target);
        u64 a = concA(*t, "function pointer");
        u64 id = (a - FBASE) / 16;
        if (a < FBASE || (a & 15) || id >= funcs.size()) violation("memory", "call through an invalid function pointer");
        f = funcs[id];
        if (f->builtin == -1) f->builtin = builtinId(f->name, f->F->isDeclaration());
        if (f->builtin >= 0) {
            int save = ci->builtin;
            ci->builtin = f->builtin;
            bool tr = callBuiltin(in, fr, R);
            ci->builtin = save;
            if (!tr) finishCall(frames.back(), in);
            return;
        }
        if (f->argslot.size() > ci->args.size()) incomplete("indirect call with mismatching arguments");
    }
    else if (ci->builtin >= 0) {
        if (!callBuiltin(in, fr, R)) finishCall(frames.back(), in);
        return;
    }
    if (f->F->isDeclaration()) {
        if (opt.verbose) fprintf(stderr, "%s", stackTrace().c_str());
        incomplete("call of an undefined function: " + f->name);
    }
    u64 byv[16] = { 0 };
    pushFrame(f, &in, 0);
    Slot* N = frames.back().regs;
    for (size_t i = 0; i < f->argslot.size(); i++) {
        auto& a = ci->args[i];
        Slot* s = SL(R, a[0]);
        if (ci->byval[i]) {
            u64 p = concA(*s, "byval");
            byv[0] = allocStack(ci->byval[i], 16);
            copyMem(byv[0], p, ci->byval[i]);
            N[f->argslot[i]].set(byv[0]);
        }
        else if (f->argn[i] == 1) N[f->argslot[i]] = *s;
        else memcpy((void*)(N + f->argslot[i]), (void*)s, sizeof(Slot) * f->argn[i]);
    }
    if (f->F->isVarArg()) passVariable(ci, f->argslot.size(), R);
}
#include "calls.hpp"

static void step(DInst& in, Frame& fr)
{
    Slot* R = fr.regs;
    switch (in.op) {
    case D_BIN: {
        Slot *a = SL(R, in.a), *b = SL(R, in.b);
        for (u32 i = 0; i < in.n; i++) binop((Op)in.sub, in.w, R[in.dst + i], a[i], b[i]);
        fr.pc++;
        break;
    }
    case D_ICMP: {
        Slot *a = SL(R, in.a), *b = SL(R, in.b);
        for (u32 i = 0; i < in.n; i++) icmp(in.sub, in.w, R[in.dst + i], a[i], b[i]);
        fr.pc++;
        break;
    }
    case D_TRUNC: case D_ZEXT: case D_SEXT: {
        Slot* a = SL(R, in.a);
        for (u32 i = 0; i < in.n; i++) {
            Slot& d = R[in.dst + i];
            u128 v = a[i].v();
            v = in.op == D_TRUNC ? v & maskw(in.w) : in.op == D_ZEXT ? v : (u128)sextw(v, in.w2) & maskw(in.w);
            if (a[i].e) {
                Expr* e = in.op == D_TRUNC ? P.mkExtract(a[i].e, 0, in.w) : in.op == D_ZEXT ? P.mkZext(a[i].e, in.w) : P.mkSext(a[i].e, in.w);
                setE(d, v, e);
            }
            else d.set(v);
        }
        fr.pc++;
        break;
    }
    case D_COPY: {
        Slot* a = SL(R, in.a);
        if (in.dst >= 0) memmove((void*)(R + in.dst), (void*)a, sizeof(Slot) * std::max<u32>(1, in.n));
        fr.pc++;
        break;
    }
    case D_BITCAST: doBitcast(in, R); fr.pc++; break;
    case D_SELECT: doSelect(in, R); fr.pc++; break;
    case D_GEP: {
        Slot* p = SL(R, in.a);
        u64 v = p->lo + in.imm;
        bool sym = p->e != nullptr;
        for (auto& t : *in.gep) {
            Slot* s = SL(R, t.op);
            v += (u64)((i64)sextw(s->v(), t.w)) * t.scale;
            sym |= s->e != nullptr;
        }
        if (sym) {
            Expr* e = P.mkBin(E_ADD, X(*p, 64), P.mkConst((u64)in.imm, 64));
            for (auto& t : *in.gep) {
                Slot* s = SL(R, t.op);
                Expr* o = X(*s, t.w);
                if (t.w < 64) o = P.mkSext(o, 64);
                else if (t.w > 64) o = P.mkExtract(o, 0, 64);
                e = P.mkBin(E_ADD, e, P.mkBin(E_MUL, o, P.mkConst((u64)t.scale, 64)));
            }
            setE(R[in.dst], v, e);
        }
        else { Slot& d = R[in.dst]; d.lo = v; d.hi = 0; d.e = nullptr; }
        fr.pc++;
        break;
    }
    case D_LOAD: {
        Slot* p = SL(R, in.a);
        if (p->e) {
            if (Obj* o = resolve(*p, in.bytes, false)) { tableLoad(o, *p, in, R); fr.pc++; break; }
        }
        else checkRead(p->lo, in.bytes);
        u64 a = p->lo;
        if (in.n == 1) loadLeaf(a, in.bytes, in.w, R[in.dst]);
        else for (u32 i = 0; i < in.n; i++) { auto& l = in.ti->leaves[i]; loadLeaf(a + l.off, l.bytes, l.w, R[in.dst + i]); }
        fr.pc++;
        break;
    }
    case D_STORE: {
        Slot* p = SL(R, in.a);
        resolve(*p, in.bytes, true, cast<StoreInst>(in.inst)->isAtomic());
        u64 a = p->lo;
        Slot* v = SL(R, in.b);
        if (in.n == 1) storeLeaf(a, in.bytes, in.w, *v);
        else for (u32 i = 0; i < in.n; i++) { auto& l = in.ti->leaves[i]; storeLeaf(a + l.off, l.bytes, l.w, v[i]); }
        fr.pc++;
        break;
    }
    case D_ALLOCA: {
        u64 n = concA(*SL(R, in.a), "alloca size");
        R[in.dst].set(allocStack(n * in.imm, in.bytes));
        fr.pc++;
        break;
    }
    case D_BR: takeEdge(fr, (*in.edges)[0]); break;
    case D_CONDBR: {
        Slot* c = SL(R, in.a);
        bool v = c->lo & 1;
        if (c->e) v = branch(c->e, v);
        takeEdge(fr, (*in.edges)[v ? 0 : 1]);
        break;
    }
    case D_SWITCH: {
        Slot* c = SL(R, in.a);
        auto& cs = *in.cases;
        size_t k = 0;
        for (size_t i = 0; i < cs.size(); i++) if (cs[i] == c->lo) { k = i + 1; break; }
        if (c->e) {
            // group the cases by destination
            u32 idx = choiceNo++;
            ws->decisions++;
            auto groupCond = [&](size_t g) { // g: edge index representing the group; 0 = default
                u32 tgt = (*in.edges)[g].target;
                Expr* r = P.F();
                for (size_t i = 0; i < cs.size(); i++)
                    if ((*in.edges)[i + 1].target == tgt && (*in.edges)[i + 1].moves == (*in.edges)[g].moves)
                        r = P.mkBin(E_OR, r, P.mkEq(c->e, P.mkConst(cs[i], in.w)));
                if ((*in.edges)[0].target == tgt && (*in.edges)[0].moves == (*in.edges)[g].moves) {
                    Expr* d = P.T();
                    for (size_t i = 0; i < cs.size(); i++) d = P.mkBin(E_AND, d, P.mkNot(P.mkEq(c->e, P.mkConst(cs[i], in.w))));
                    r = P.mkBin(E_OR, r, d);
                }
                return r;
            };
            auto same = [&](size_t a, size_t b) { return (*in.edges)[a].target == (*in.edges)[b].target && (*in.edges)[a].moves == (*in.edges)[b].moves; };
            if (idx >= bound) {
                std::vector<size_t> reps { k };
                for (size_t g = 0; g < in.edges->size(); g++) {
                    bool seen = false;
                    for (size_t r : reps) seen |= same(r, g);
                    if (seen) continue;
                    reps.push_back(g);
                    tryFlip(groupCond(g), idx);
                }
            }
            addPC(groupCond(k));
        }
        takeEdge(fr, (*in.edges)[k]);
        break;
    }
    case D_CALL: case D_INVOKE: doCall(in); break;
    case D_RET: {
        Slot tmp[64];
        u32 n = in.n;
        if (n > 64) incomplete("large return value");
        if (n) memcpy((void*)tmp, (void*)SL(R, in.a), sizeof(Slot) * n);
        int special = fr.special;
        DInst* ci = fr.callInst;
        popFrame();
        if (special == 1) throw PathEnd { W_DONE };
        Frame& up = frames.back();
        if (special == 2) { finishCall(up, up.f->code[up.pc]); break; }
        if (ci->dst >= 0 && n) memcpy((void*)(up.regs + ci->dst), (void*)tmp, sizeof(Slot) * n);
        finishCall(up, *ci);
        break;
    }
    case D_UNREACH: violation("undefined", "unreachable code reached");
    case D_EXTRACTEL: {
        u64 ix = (u64)concretize(*SL(R, in.b), in.w, "vector index");
        if (ix >= in.n) violation("undefined", "vector index out of range");
        R[in.dst] = SL(R, in.a)[ix];
        fr.pc++;
        break;
    }
    case D_INSERTEL: {
        u64 ix = (u64)concretize(*SL(R, in.c), in.w, "vector index");
        if (ix >= in.n) violation("undefined", "vector index out of range");
        Slot v = *SL(R, in.b);
        memmove((void*)(R + in.dst), (void*)SL(R, in.a), sizeof(Slot) * in.n);
        R[in.dst + ix] = v;
        fr.pc++;
        break;
    }
    case D_GATHER: {
        Slot tmp[256];
        auto& l = *in.list;
        if (l.size() > 256) incomplete("large aggregate");
        for (size_t i = 0; i < l.size(); i++) tmp[i] = *SL(R, l[i]);
        memcpy((void*)(R + in.dst), (void*)tmp, sizeof(Slot) * l.size());
        fr.pc++;
        break;
    }
    case D_RESUME: {
        u64 exn = SL(R, in.a)->lo;
        if (fr.special) violation("exception", "exception escaped");
        popFrame();
        unwind(exn);
        break;
    }
    case D_FBIN: {
        for (u32 i = 0; i < in.n; i++) {
            Slot &a = SL(R, in.a)[i], &b = SL(R, in.b)[i];
            concretize(a, in.w, "floating point operand");
            concretize(b, in.w, "floating point operand");
            long double x = getF(a, in.w), y = getF(b, in.w), r;
            if (in.w == 32) { float p = x, q = y; r = in.sub == Instruction::FAdd ? p + q : in.sub == Instruction::FSub ? p - q : in.sub == Instruction::FMul ? p * q : in.sub == Instruction::FDiv ? p / q : fmodf(p, q); }
            else if (in.w == 64) { double p = x, q = y; r = in.sub == Instruction::FAdd ? p + q : in.sub == Instruction::FSub ? p - q : in.sub == Instruction::FMul ? p * q : in.sub == Instruction::FDiv ? p / q : fmod(p, q); }
            else r = in.sub == Instruction::FAdd ? x + y : in.sub == Instruction::FSub ? x - y : in.sub == Instruction::FMul ? x * y : in.sub == Instruction::FDiv ? x / y : fmodl(x, y);
            putF(R[in.dst + i], in.w, r);
        }
        fr.pc++;
        break;
    }
    case D_FNEG: {
        for (u32 i = 0; i < in.n; i++) {
            Slot a = SL(R, in.a)[i];
            u128 bit = (u128)1 << (in.w - 1);
            if (a.e) setE(R[in.dst + i], a.v() ^ bit, P.mkBin(E_XOR, a.e, P.mkConst(bit, in.w)));
            else R[in.dst + i].set(a.v() ^ bit);
        }
        fr.pc++;
        break;
    }
    case D_FCMP: {
        for (u32 i = 0; i < in.n; i++) {
            Slot a = SL(R, in.a)[i], b = SL(R, in.b)[i];
            fcmp(in.sub, in.w, R[in.dst + i], a, b);
        }
        fr.pc++;
        break;
    }
    case D_FCAST: {
        for (u32 i = 0; i < in.n; i++) {
            Slot& a = SL(R, in.a)[i];
            Slot& d = R[in.dst + i];
            if (a.e && in.sub == Instruction::FPExt && in.w2 == 32 && in.w == 64 && fext32(d, a)) continue;
            if (a.e && in.sub == Instruction::FPTrunc && in.w2 == 64 && in.w == 32 && ftrunc64(d, a)) continue;
            concretize(a, in.w2, "floating point conversion");
            switch (in.sub) {
            case Instruction::FPTrunc: case Instruction::FPExt: putF(d, in.w, getF(a, in.w2)); break;
            case Instruction::UIToFP:
                if (in.w == 32) putF(d, 32, (float)a.v());
                else if (in.w == 64) putF(d, 64, (double)a.v());
                else putF(d, in.w, (long double)a.v());
                break;
            case Instruction::SIToFP: {
                i128 v = sextw(a.v(), in.w2);
                if (in.w == 32) putF(d, 32, (float)v);
                else if (in.w == 64) putF(d, 64, (double)v);
                else putF(d, in.w, (long double)v);
                break;
            }
            case Instruction::FPToUI: d.set((u128)getF(a, in.w2) & maskw(in.w)); break;
            case Instruction::FPToSI: d.set((u128)(i128)getF(a, in.w2) & maskw(in.w)); break;
            default: incomplete("unsupported cast");
            }
        }
        fr.pc++;
        break;
    }
    case D_RMW: {
        Slot* p = SL(R, in.a);
        resolve(*p, in.bytes, true, true);
        Slot old, nv, *v = SL(R, in.b);
        loadLeaf(p->lo, in.bytes, in.w, old);
        switch (in.sub) {
        case AtomicRMWInst::Add: binop(E_ADD, in.w, nv, old, *v); break;
        case AtomicRMWInst::Sub: binop(E_SUB, in.w, nv, old, *v); break;
        case AtomicRMWInst::And: binop(E_AND, in.w, nv, old, *v); break;
        case AtomicRMWInst::Or: binop(E_OR, in.w, nv, old, *v); break;
        case AtomicRMWInst::Xor: binop(E_XOR, in.w, nv, old, *v); break;
        case AtomicRMWInst::Xchg: nv = *v; break;
        default: incomplete("unsupported atomic");
        }
        storeLeaf(p->lo, in.bytes, in.w, nv);
        R[in.dst] = old;
        fr.pc++;
        break;
    }
    case D_CMPXCHG: {
        Slot* p = SL(R, in.a);
        resolve(*p, in.bytes, true, true);
        Slot old, eq;
        loadLeaf(p->lo, in.bytes, in.w, old);
        icmp(CmpInst::ICMP_EQ, in.w, eq, old, *SL(R, in.b));
        if (eq.e) branch(eq.e, eq.lo);
        if (eq.lo) storeLeaf(p->lo, in.bytes, in.w, *SL(R, in.c));
        R[in.dst] = old;
        R[in.dst + 1].set(eq.lo);
        fr.pc++;
        break;
    }
    case D_NOP: fr.pc++; break;
    default: {
        std::string s;
        raw_string_ostream os(s);
        in.inst->print(os);
        incomplete("unsupported instruction:" + s.substr(0, 120));
    }
    }
}
static void interp()
{
    for (;;) {
        Frame& fr = frames.back();
        DInst& in = fr.f->code[fr.pc];
        if (++instCount > opt.maxInst && !inInit) violation("hang", "more instructions than the per-path limit");
        if ((instCount & 0xffff) == 0 && !inInit && sh->stop) throw PathEnd { W_INCOMPLETE };
        if (opt.trace) { std::string s; raw_string_ostream os(s); in.inst->print(os); fprintf(stderr, "%*s%s\n", (int)frames.size(), "", s.c_str()); }
        step(in, fr);
    }
}
