// symx: path-exploring symbolic execution of LLVM bitcode, decided by Z3.
#include "ir.hpp"
#include "solver.hpp"
#include <array>
#include <cmath>
#include <cxxabi.h>
#include <fcntl.h>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// ------------------------------------------------------------------ options
struct Options {
    std::string bc, entry = "harness", out = "/tmp/symx-out";
    std::vector<i64> params;
    int workers = 8;
    double time = 60;
    u64 maxInst = 4000000;
    int maxViol = 8;
    int samples = 64;
    u64 dumpEvery = 0;
    bool verbose = false, trace = false;
    int single = -1;
    std::string model; // run one model only
    u64 maxPaths = 0;
} opt;

// ------------------------------------------------------------------ shared state
struct WItem { u32 bound; u32 nvars; u8 model[MAXVARS]; };
static const int QMAX = 1024, MAXW = 16, MAXLAB = 128, MAXREASON = 32;
struct WStats {
    u64 paths, complete, violating, assumeFail, incomplete, insts, choices, decisions, checks, checksSym, queries, hits, z3, sat, unsat, unknown, selfchecks, selffail, forks, throws_, maxChoices, concr;
    double z3time, maxq;
};
struct Shared {
    pthread_mutex_t mu;
    volatile int stop, idle, qn, nviol, timeup;
    WItem q[QMAX];
    WStats w[MAXW];
    int nlab;
    struct { char name[64]; u64 count; } lab[MAXLAB];
    int nreason;
    struct { char name[160]; u64 count; } reason[MAXREASON];
    volatile u64 pendingAtStop;
};
static Shared* sh;
static u8* covBlocks; // shared
static u8* covFuncs;
static int wid = 0;
static WStats* ws;
struct Lock {
    Lock() { pthread_mutex_lock(&sh->mu); }
    ~Lock() { pthread_mutex_unlock(&sh->mu); }
};

// ------------------------------------------------------------------ module
static LLVMContext llctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static ExprPool P;
static Solver S(P);
static std::vector<DFunc*> funcs;
static std::map<const Function*, DFunc*> funcOf;
static std::vector<Slot> constPool;
static std::map<const Constant*, i32> constIx;
static std::map<Type*, TInfo*> tinfos;
static std::map<const GlobalValue*, u64> gaddr;
static u32 totalBlocks = 0;
static const u64 FBASE = 0x10000;

// ------------------------------------------------------------------ memory
static const u64 ABASE = 0x200000000000ull;
static const u64 GSIZE = 16 << 20, HSIZE = 48 << 20, SSIZE = 16 << 20, ASIZE = GSIZE + HSIZE + SSIZE;
static const u64 HBASE = ABASE + GSIZE, SBASE = HBASE + HSIZE;
static u8* flags;      // per byte: 1 alive, 2 symbolic, 4 read only
static Expr** shadow;  // per byte
static u64 gtop = ABASE, htop = HBASE, stop_ = SBASE, hsnap = HBASE;
struct Obj { u64 addr, size; bool alive; u8 kind; };
static std::vector<Obj> gobjs, hobjs, sobjs;
static size_t hobjSnap = 0;
static u64 heapLive = 0, heapLiveSnap = 0;
static std::vector<u64> symBytes;
static std::vector<std::pair<u64, u64>> wglobals; // writable global ranges
static std::vector<u8> gimage, himage;
static std::vector<u8> hflagsImage;

static inline bool inArena(u64 a, u64 n) { return a >= ABASE && a + n <= ABASE + ASIZE && n <= ASIZE; }
static inline u8* FL(u64 a) { return flags + (a - ABASE); }
static inline Expr*& SH(u64 a) { return shadow[a - ABASE]; }

// ------------------------------------------------------------------ path state
struct PathEnd { int why; };
enum { W_DONE, W_ASSUME, W_VIOL, W_INCOMPLETE };
struct Caught { u64 exn; };
struct ExnInfo { u64 ti, dtor; int handlers; bool thrown; };

struct Frame {
    DFunc* f;
    Slot* regs;
    u32 pc;
    DInst* callInst; // in the caller
    u64 stackMark;
    size_t sobjMark;
    int special; // 0 ordinary, 1 entry, 2 engine-called (value ignored)
    u32 nvar;
    u64 va; // the variable arguments in memory
};
static std::vector<Slot> regfile;
static size_t regtop = 0;
static std::vector<Frame> frames;

static u8 model[MAXVARS];
static u32 nvars = 0;
static std::vector<std::pair<std::string, u32>> varNames;
static u32 bound = 0, choiceNo = 0;
static u64 instCount = 0;
static std::vector<WItem> localStack;
static std::map<u64, ExnInfo> exns;
static std::vector<u64> caught;
static int uncaughtExn = 0;
static std::vector<u64> observed;
static bool inInit = false;
static u64 errnoAddr = 0;
static std::string lastMsg;
static int violSeq = 0, sampleSeq = 0;
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

static void noteReason(const std::string& s)
{
    Lock l;
    for (int i = 0; i < sh->nreason; i++)
        if (!strncmp(sh->reason[i].name, s.c_str(), 159)) { sh->reason[i].count++; return; }
    if (sh->nreason < MAXREASON) {
        snprintf(sh->reason[sh->nreason].name, 160, "%s", s.c_str());
        sh->reason[sh->nreason++].count = 1;
    }
}
[[noreturn]] static void incomplete(const std::string& why)
{
    noteReason(why);
    if (opt.verbose) fprintf(stderr, "[w%d] incomplete: %s\n", wid, why.c_str());
    throw PathEnd { W_INCOMPLETE };
}
static std::string stackTrace()
{
    std::string s;
    int n = 0;
    for (size_t i = frames.size(); i-- > 0 && n < 14; n++) {
        std::string d = frames[i].f->dname;
        if (d.size() > 140) d = d.substr(0, 140) + "...";
        s += "    " + d + "\n";
    }
    return s;
}
static void writeModel(FILE* f)
{
    fprintf(f, "model ");
    for (u32 i = 0; i < nvars; i++) fprintf(f, "%02x", model[i]);
    fprintf(f, "\n");
}
static void saveCandidate(const std::string& kind, const std::string& msg)
{
    int n;
    { Lock l; n = sh->nviol++; }
    if (n >= 64) return;
    char fn[600];
    snprintf(fn, sizeof fn, "%s/viol_%d_%d.txt", opt.out.c_str(), wid, violSeq++);
    FILE* f = fopen(fn, "w");
    if (!f) return;
    fprintf(f, "kind %s\nmsg %s\nentry %s\nparams", kind.c_str(), msg.c_str(), opt.entry.c_str());
    for (auto p : opt.params) fprintf(f, " %lld", (long long)p);
    fprintf(f, "\n");
    writeModel(f);
    fprintf(f, "obs");
    for (u64 o : observed) fprintf(f, " %llu", (unsigned long long)o);
    fprintf(f, "\nnames");
    for (auto& v : varNames) fprintf(f, " %s:%u", v.first.c_str(), v.second);
    fprintf(f, "\nstack\n%s", stackTrace().c_str());
    fclose(f);
    if (n + 1 >= opt.maxViol) sh->stop = 1;
}
[[noreturn]] static void violation(const std::string& kind, const std::string& msg)
{
    if (inInit) { fprintf(stderr, "violation during static initialisation: %s %s\n%s", kind.c_str(), msg.c_str(), stackTrace().c_str()); exit(3); }
    saveCandidate(kind, msg);
    throw PathEnd { W_VIOL };
}

// ------------------------------------------------------------------ types and constants
static TInfo* tinfo(Type* t)
{
    auto it = tinfos.find(t);
    if (it != tinfos.end()) return it->second;
    TInfo* r = new TInfo;
    tinfos[t] = r;
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy()) return r;
    if (t->isSized()) r->size = DL->getTypeAllocSize(t);
    if (t->isIntegerTy()) {
        u32 w = t->getIntegerBitWidth();
        if (w > 128) r->ok = false;
        r->leaves.push_back({ 0, (u16)(w > 128 ? 128 : w), (u16)((w + 7) / 8) });
    }
    else if (t->isPointerTy()) r->leaves.push_back({ 0, 64, 8 });
    else if (t->isFloatTy()) r->leaves.push_back({ 0, 32, 4 });
    else if (t->isDoubleTy()) r->leaves.push_back({ 0, 64, 8 });
    else if (t->isX86_FP80Ty()) r->leaves.push_back({ 0, 80, 10 });
    else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        TInfo* e = tinfo(v->getElementType());
        u64 es = e->leaves[0].bytes;
        if (e->leaves[0].w % 8) r->memok = false;
        r->ok = e->ok;
        for (u32 i = 0; i < v->getNumElements(); i++) r->leaves.push_back({ (u32)(i * es), e->leaves[0].w, (u16)es });
    }
    else if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        for (u32 i = 0; i < s->getNumElements(); i++) {
            TInfo* e = tinfo(s->getElementType(i));
            r->memok &= e->memok; r->ok &= e->ok;
            u32 o = sl->getElementOffset(i);
            for (auto& l : e->leaves) r->leaves.push_back({ o + l.off, l.w, l.bytes });
        }
    }
    else if (auto* a = dyn_cast<ArrayType>(t)) {
        TInfo* e = tinfo(a->getElementType());
        r->memok &= e->memok; r->ok &= e->ok;
        if (a->getNumElements() * e->leaves.size() > 4096) { r->ok = false; }
        else
            for (u64 i = 0; i < a->getNumElements(); i++)
                for (auto& l : e->leaves) r->leaves.push_back({ (u32)(i * e->size + l.off), l.w, l.bytes });
    }
    else r->ok = false;
    return r;
}
static u64 globalAddr(const GlobalValue* g);
static void evalConst(const Constant* c, std::vector<Slot>& out);
static u128 evalConst1(const Constant* c)
{
    std::vector<Slot> o;
    evalConst(c, o);
    if (o.size() != 1) { fprintf(stderr, "constant of unexpected shape\n"); exit(3); }
    return o[0].v();
}
static u128 ap(const APInt& v)
{
    u128 r = v.getRawData()[0];
    if (v.getNumWords() > 1) r |= (u128)v.getRawData()[1] << 64;
    return r;
}
static void evalConst(const Constant* c, std::vector<Slot>& out)
{
    Type* t = c->getType();
    auto push = [&](u128 v) { Slot s; s.set(v); out.push_back(s); };
    if (auto* i = dyn_cast<ConstantInt>(c)) return push(i->getBitWidth() > 128 ? 0 : ap(i->getValue()));
    if (auto* f = dyn_cast<ConstantFP>(c)) return push(ap(f->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(c)) return push(0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        for (size_t i = 0; i < tinfo(t)->leaves.size(); i++) push(0);
        return;
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) return push(globalAddr(g));
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        for (u32 i = 0; i < d->getNumElements(); i++) evalConst(d->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantAggregate>(c)) {
        for (u32 i = 0; i < c->getNumOperands(); i++) evalConst(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(e);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) break;
            return push((u64)evalConst1(cast<Constant>(g->getPointerOperand())) + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            u128 v = evalConst1(e->getOperand(0));
            return push(v & maskw(tinfo(t)->leaves[0].w));
        }
        case Instruction::Trunc: return push(evalConst1(e->getOperand(0)) & maskw(tinfo(t)->leaves[0].w));
        case Instruction::Add: return push((evalConst1(e->getOperand(0)) + evalConst1(e->getOperand(1))) & maskw(tinfo(t)->leaves[0].w));
        case Instruction::Sub: return push((evalConst1(e->getOperand(0)) - evalConst1(e->getOperand(1))) & maskw(tinfo(t)->leaves[0].w));
        case Instruction::ICmp: {
            u128 a = evalConst1(e->getOperand(0)), b = evalConst1(e->getOperand(1));
            if (e->getPredicate() == CmpInst::ICMP_EQ) return push(a == b);
            if (e->getPredicate() == CmpInst::ICMP_NE) return push(a != b);
            int w = tinfo(e->getOperand(0)->getType())->leaves[0].w;
            if (w > 64 || tinfo(e->getOperand(0)->getType())->leaves.size() != 1) break;
            return push(ICmpInst::compare(APInt(w, (u64)a), APInt(w, (u64)b), (ICmpInst::Predicate)e->getPredicate()));
        }
        case Instruction::Mul: return push((evalConst1(e->getOperand(0)) * evalConst1(e->getOperand(1))) & maskw(tinfo(t)->leaves[0].w));
        case Instruction::Xor: return push(evalConst1(e->getOperand(0)) ^ evalConst1(e->getOperand(1)));
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    fprintf(stderr, "unsupported constant: %s\n", s.c_str());
    exit(3);
}
static DFunc* dfunc(const Function* f)
{
    auto it = funcOf.find(f);
    if (it != funcOf.end()) return it->second;
    DFunc* d = new DFunc;
    d->F = const_cast<Function*>(f);
    d->name = f->getName().str();
    d->dname = demangle(d->name);
    d->repo = d->dname.find("json::") != std::string::npos && d->dname.rfind("std::", 0) != 0 && d->dname.rfind("void std::", 0) != 0;
    d->id = funcs.size();
    funcs.push_back(d);
    funcOf[f] = d;
    return d;
}
static std::set<u64> tlsGlobals;
static u64 globalAddr(const GlobalValue* g)
{
    if (auto* f = dyn_cast<Function>(g)) return FBASE + (u64)dfunc(f)->id * 16;
    if (auto* a = dyn_cast<GlobalAlias>(g)) return (u64)evalConst1(a->getAliasee());
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    auto* v = cast<GlobalVariable>(g);
    u64 size = v->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(v->getValueType()) : 64;
    if (v->isDeclaration() && size < 256) size = 256;
    u64 al = std::max<u64>(16, v->getAlign() ? v->getAlign()->value() : 16);
    gtop = (gtop + 32 + al - 1) & ~(al - 1);
    u64 a = gtop;
    gtop += size ? size : 1;
    if (gtop > ABASE + GSIZE) { fprintf(stderr, "global region exhausted\n"); exit(3); }
    gaddr[g] = a;
    bool ro = v->isConstant();
    memset(FL(a), ro ? 5 : 1, size);
    gobjs.push_back({ a, size, true, (u8)(ro ? 'r' : 'g') });
    if (!ro) wglobals.push_back({ a, size });
    // the standard library looks after its own variables
    if (v->isThreadLocal() || v->getName().starts_with("_ZNSt") || v->getName().starts_with("_ZSt") || v->isDeclaration()) tlsGlobals.insert(a);
    return a;
}
static void storeConst(const Constant* c, u64 addr)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = d->getRawDataValues();
        memcpy((void*)addr, r.data(), r.size());
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = DL->getStructLayout(s->getType());
        for (u32 i = 0; i < s->getNumOperands(); i++) storeConst(s->getOperand(i), addr + sl->getElementOffset(i));
        return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        u64 es = isa<ConstantArray>(c) ? (u64)DL->getTypeAllocSize(c->getOperand(0)->getType()) : tinfo(c->getOperand(0)->getType())->leaves[0].bytes;
        for (u32 i = 0; i < c->getNumOperands(); i++) storeConst(cast<Constant>(c->getOperand(i)), addr + i * es);
        return;
    }
    u128 v = evalConst1(c);
    memcpy((void*)addr, &v, tinfo(t)->leaves[0].bytes);
}

#include "builtins.hpp"
#include "decode.hpp"
#include "interp.hpp"
#include "main.hpp"
