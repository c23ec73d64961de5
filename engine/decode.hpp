// Function decoding: LLVM instruction -> DInst, lazily per function.
#pragma once

static i32 constOpd(const Constant* c)
{
    auto it = constIx.find(c);
    if (it != constIx.end()) return it->second;
    std::vector<Slot> o;
    evalConst(c, o);
    i32 ix = ~(i32)constPool.size();
    for (auto& s : o) constPool.push_back(s);
    if (o.empty()) constPool.push_back(Slot { 0, 0, nullptr });
    constIx[c] = ix;
    return ix;
}
struct Decoder {
    DFunc* D;
    u32 slotsFor(Type* t) { return tinfo(t)->leaves.size(); }
    i32 newSlots(u32 n) { i32 r = D->nslots; D->nslots += n; return r; }
    i32 opd(const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) return constOpd(c);
        if (isa<MetadataAsValue>(v)) return constOpd(ConstantInt::get(Type::getInt64Ty(llctx), 0));
        auto it = D->slotOf.find(v);
        if (it == D->slotOf.end()) { fprintf(stderr, "operand without slot in %s\n", D->name.c_str()); exit(3); }
        return it->second;
    }
    u16 wof(Type* t) { auto& l = tinfo(t)->leaves; return l.empty() ? 0 : l[0].w; }
    u32 flatIndex(Type* t, ArrayRef<unsigned> idx)
    {
        u32 r = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; k++) r += slotsFor(s->getElementType(k));
                t = s->getElementType(i);
            }
            else {
                auto* a = cast<ArrayType>(t);
                r += i * slotsFor(a->getElementType());
                t = a->getElementType();
            }
        }
        return r;
    }
    std::map<const BasicBlock*, u32> bix;
    struct EdgeFix { std::vector<Edge>* v; size_t i; const BasicBlock *from, *to; };
    std::vector<EdgeFix> fixes;
    void mkEdge(std::vector<Edge>* v, const BasicBlock* from, const BasicBlock* to)
    {
        v->push_back(Edge());
        fixes.push_back({ v, v->size() - 1, from, to });
    }
    static bool bad(Type* t) { return !tinfo(t)->ok; }
    void run(DFunc* d)
    {
        D = d;
        Function& F = *d->F;
        if (F.isDeclaration()) { fprintf(stderr, "decode of declaration %s\n", d->name.c_str()); exit(3); }
        for (auto& a : F.args()) {
            u32 n = slotsFor(a.getType());
            i32 s = newSlots(n);
            d->slotOf[&a] = s;
            d->argslot.push_back(s);
            d->argn.push_back(n);
        }
        u32 bi = 0;
        for (auto& B : F) {
            bix[&B] = bi++;
            for (auto& I : B)
                if (!I.getType()->isVoidTy()) d->slotOf[&I] = newSlots(std::max<u32>(1, slotsFor(I.getType())));
        }
        d->nblocks = bi;
        d->blockBase = totalBlocks;
        totalBlocks += bi;
        for (auto& B : F) {
            d->blockStart.push_back(d->code.size());
            for (auto& I : B) inst(I, B);
        }
        for (auto& f : fixes) {
            Edge& e = (*f.v)[f.i];
            e.block = bix[f.to];
            e.target = d->blockStart[e.block];
            for (auto& I : *const_cast<BasicBlock*>(f.to)) {
                auto* ph = dyn_cast<PHINode>(&I);
                if (!ph) break;
                i32 src = opd(ph->getIncomingValueForBlock(f.from));
                e.moves.push_back({ d->slotOf[ph], src, (i32)slotsFor(ph->getType()) });
            }
        }
        d->slotOf.clear();
        d->decoded = true;
    }
    void unsup(DInst& x) { x.op = D_UNSUP; }
    void inst(Instruction& I, BasicBlock& B)
    {
        if (isa<PHINode>(I)) return;
        DInst x;
        memset((void*)&x, 0, sizeof x);
        x.inst = &I;
        x.dst = I.getType()->isVoidTy() ? -1 : D->slotOf[&I];
        Type* T = I.getType();
        bool isbad = !T->isVoidTy() && bad(T);
        for (auto& o : I.operands()) {
            Type* t = o->getType();
            if (!t->isLabelTy() && !t->isMetadataTy() && !t->isTokenTy() && !isa<Function>(o.get()) && bad(t)) isbad = true;
        }
        if (isbad && !isa<LoadInst>(I) && !isa<StoreInst>(I)) { unsup(x); D->code.push_back(x); return; }
        if (auto* b = dyn_cast<BinaryOperator>(&I)) {
            static const std::map<unsigned, Op> m = { { Instruction::Add, E_ADD }, { Instruction::Sub, E_SUB }, { Instruction::Mul, E_MUL }, { Instruction::UDiv, E_UDIV }, { Instruction::SDiv, E_SDIV }, { Instruction::URem, E_UREM }, { Instruction::SRem, E_SREM }, { Instruction::Shl, E_SHL }, { Instruction::LShr, E_LSHR }, { Instruction::AShr, E_ASHR }, { Instruction::And, E_AND }, { Instruction::Or, E_OR }, { Instruction::Xor, E_XOR } };
            x.a = opd(b->getOperand(0)); x.b = opd(b->getOperand(1));
            x.w = wof(T); x.n = slotsFor(T);
            auto it = m.find(b->getOpcode());
            if (it != m.end()) { x.op = D_BIN; x.sub = it->second; }
            else { x.op = D_FBIN; x.sub = b->getOpcode(); }
        }
        else if (auto* c = dyn_cast<ICmpInst>(&I)) {
            x.op = D_ICMP; x.sub = c->getPredicate();
            x.a = opd(c->getOperand(0)); x.b = opd(c->getOperand(1));
            x.w = wof(c->getOperand(0)->getType()); x.n = slotsFor(T);
        }
        else if (auto* c = dyn_cast<FCmpInst>(&I)) {
            x.op = D_FCMP; x.sub = c->getPredicate();
            x.a = opd(c->getOperand(0)); x.b = opd(c->getOperand(1));
            x.w = wof(c->getOperand(0)->getType()); x.n = slotsFor(T);
        }
        else if (auto* c = dyn_cast<CastInst>(&I)) {
            x.a = opd(c->getOperand(0));
            Type* sT = c->getOperand(0)->getType();
            x.w = wof(T); x.w2 = wof(sT); x.n = slotsFor(T);
            switch (c->getOpcode()) {
            case Instruction::Trunc: x.op = D_TRUNC; break;
            case Instruction::ZExt: x.op = D_ZEXT; break;
            case Instruction::SExt: x.op = D_SEXT; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                x.op = x.w < x.w2 ? D_TRUNC : x.w > x.w2 ? D_ZEXT : D_COPY; break;
            case Instruction::BitCast:
                x.imm = slotsFor(sT);
                x.op = (u32)x.imm == x.n && x.w == x.w2 ? D_COPY : D_BITCAST;
                break;
            default: x.op = D_FCAST; x.sub = c->getOpcode(); break;
            }
        }
        else if (auto* s = dyn_cast<SelectInst>(&I)) {
            x.op = D_SELECT;
            x.a = opd(s->getCondition()); x.b = opd(s->getTrueValue()); x.c = opd(s->getFalseValue());
            x.n = slotsFor(T); x.w = wof(T);
            x.sub = s->getCondition()->getType()->isVectorTy();
            x.imm = T->isPointerTy() || T->isAggregateType();
            x.ti = tinfo(T);
        }
        else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            if (T->isVectorTy()) unsup(x);
            else {
                x.op = D_GEP; x.a = opd(g->getPointerOperand());
                x.gep = new std::vector<GepTerm>;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* o = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) x.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(o)->getZExtValue());
                    else {
                        i64 sc = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(o)) x.imm += ci->getSExtValue() * sc;
                        else x.gep->push_back({ opd(o), wof(o->getType()), sc });
                    }
                }
            }
        }
        else if (auto* l = dyn_cast<LoadInst>(&I)) {
            x.op = D_LOAD; x.a = opd(l->getPointerOperand());
            x.ti = tinfo(T); x.n = x.ti->leaves.size(); x.w = wof(T);
            x.bytes = DL->getTypeStoreSize(T);
            if (!x.ti->memok || !x.ti->ok) unsup(x);
        }
        else if (auto* s = dyn_cast<StoreInst>(&I)) {
            x.op = D_STORE; x.a = opd(s->getPointerOperand());
            Type* vT = s->getValueOperand()->getType();
            x.ti = tinfo(vT);
            if (!x.ti->memok || !x.ti->ok) unsup(x);
            else x.b = opd(s->getValueOperand());
            x.n = x.ti->leaves.size(); x.w = wof(vT);
            x.bytes = DL->getTypeStoreSize(vT);
        }
        else if (auto* a = dyn_cast<AllocaInst>(&I)) {
            x.op = D_ALLOCA; x.imm = DL->getTypeAllocSize(a->getAllocatedType());
            x.a = opd(a->getArraySize());
            x.bytes = std::max<u64>(16, a->getAlign().value());
        }
        else if (auto* b = dyn_cast<BranchInst>(&I)) {
            x.edges = new std::vector<Edge>;
            if (b->isConditional()) { x.op = D_CONDBR; x.a = opd(b->getCondition()); }
            else x.op = D_BR;
            for (unsigned i = 0; i < b->getNumSuccessors(); i++) mkEdge(x.edges, &B, b->getSuccessor(i));
        }
        else if (auto* s = dyn_cast<SwitchInst>(&I)) {
            x.op = D_SWITCH; x.a = opd(s->getCondition()); x.w = wof(s->getCondition()->getType());
            x.edges = new std::vector<Edge>;
            x.cases = new std::vector<u64>;
            mkEdge(x.edges, &B, s->getDefaultDest());
            for (auto& c : s->cases()) {
                x.cases->push_back(c.getCaseValue()->getZExtValue());
                mkEdge(x.edges, &B, c.getCaseSuccessor());
            }
        }
        else if (auto* r = dyn_cast<ReturnInst>(&I)) {
            x.op = D_RET;
            if (r->getReturnValue()) { x.a = opd(r->getReturnValue()); x.n = slotsFor(r->getReturnValue()->getType()); }
        }
        else if (isa<UnreachableInst>(I)) x.op = D_UNREACH;
        else if (auto* e = dyn_cast<ExtractElementInst>(&I)) {
            x.op = D_EXTRACTEL; x.a = opd(e->getVectorOperand()); x.b = opd(e->getIndexOperand());
            x.n = slotsFor(e->getVectorOperandType()); x.w = wof(e->getIndexOperand()->getType());
        }
        else if (auto* e = dyn_cast<InsertElementInst>(&I)) {
            x.op = D_INSERTEL; x.a = opd(e->getOperand(0)); x.b = opd(e->getOperand(1)); x.c = opd(e->getOperand(2));
            x.n = slotsFor(T); x.w = wof(e->getOperand(2)->getType());
        }
        else if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) {
            x.op = D_GATHER; x.list = new std::vector<i32>;
            i32 a = opd(s->getOperand(0)), b = opd(s->getOperand(1));
            u32 n0 = slotsFor(s->getOperand(0)->getType());
            for (int m : s->getShuffleMask()) {
                if (m < 0) x.list->push_back(constOpd(ConstantInt::get(Type::getInt64Ty(llctx), 0)));
                else {
                    i32 base = (u32)m < n0 ? a : b;
                    i32 k = (u32)m < n0 ? m : m - n0;
                    x.list->push_back(base >= 0 ? base + k : ~(~base + k));
                }
            }
        }
        else if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
            x.op = D_GATHER; x.list = new std::vector<i32>;
            i32 a = opd(e->getAggregateOperand());
            u32 off = flatIndex(e->getAggregateOperand()->getType(), e->getIndices());
            for (u32 i = 0; i < slotsFor(T); i++) x.list->push_back(a >= 0 ? a + off + i : ~(~a + off + i));
        }
        else if (auto* e = dyn_cast<InsertValueInst>(&I)) {
            x.op = D_GATHER; x.list = new std::vector<i32>;
            i32 a = opd(e->getAggregateOperand()), b = opd(e->getInsertedValueOperand());
            u32 off = flatIndex(T, e->getIndices()), n = slotsFor(e->getInsertedValueOperand()->getType());
            for (u32 i = 0; i < slotsFor(T); i++) {
                if (i >= off && i < off + n) x.list->push_back(b >= 0 ? b + i - off : ~(~b + i - off));
                else x.list->push_back(a >= 0 ? a + i : ~(~a + i));
            }
        }
        else if (isa<FreezeInst>(I)) { x.op = D_COPY; x.a = opd(I.getOperand(0)); x.n = slotsFor(T); x.w = wof(T); }
        else if (isa<ResumeInst>(I)) { x.op = D_RESUME; x.a = opd(I.getOperand(0)); }
        else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            u32 b = bix[&B];
            auto& cl = D->pads[b];
            D->padCleanup[b] = lp->isCleanup();
            D->padDst[b] = x.dst;
            for (u32 i = 0; i < lp->getNumClauses(); i++)
                cl.push_back({ lp->isCatch(i), lp->isCatch(i) ? (u64)evalConst1(lp->getClause(i)) : 0 });
            x.op = D_NOP;
        }
        else if (auto* u = dyn_cast<UnaryOperator>(&I)) {
            x.op = D_FNEG; x.a = opd(u->getOperand(0)); x.w = wof(T); x.n = slotsFor(T);
        }
        else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) {
            x.op = D_RMW; x.sub = r->getOperation(); x.a = opd(r->getPointerOperand()); x.b = opd(r->getValOperand());
            x.ti = tinfo(T); x.n = 1; x.w = wof(T); x.bytes = DL->getTypeStoreSize(T);
        }
        else if (auto* r = dyn_cast<AtomicCmpXchgInst>(&I)) {
            x.op = D_CMPXCHG; x.a = opd(r->getPointerOperand()); x.b = opd(r->getCompareOperand()); x.c = opd(r->getNewValOperand());
            x.ti = tinfo(r->getNewValOperand()->getType()); x.n = 1; x.w = wof(r->getNewValOperand()->getType()); x.bytes = (x.w + 7) / 8;
        }
        else if (isa<FenceInst>(I)) x.op = D_NOP;
        else if (auto* cb = dyn_cast<CallBase>(&I)) call(*cb, x, B);
        else unsup(x);
        D->code.push_back(x);
    }
    void call(CallBase& cb, DInst& x, BasicBlock& B)
    {
        if (isa<DbgInfoIntrinsic>(cb) || cb.isInlineAsm()) {
            if (cb.isInlineAsm()) {
                auto* ia = cast<InlineAsm>(cb.getCalledOperand());
                if (!ia->getAsmString().empty()) { unsup(x); return; }
                // an empty asm is an optimisation barrier
                if (x.dst >= 0 && cb.arg_size() >= 1 && slotsFor(cb.getType()) == slotsFor(cb.getArgOperand(0)->getType())) {
                    x.op = D_COPY; x.a = opd(cb.getArgOperand(0)); x.n = slotsFor(cb.getType()); x.w = wof(cb.getType());
                    return;
                }
            }
            x.op = D_NOP;
            return;
        }
        auto* ci = new CallInfo;
        ci->cb = &cb;
        x.call = ci;
        x.n = cb.getType()->isVoidTy() ? 0 : slotsFor(cb.getType());
        x.w = cb.getType()->isVoidTy() ? 0 : wof(cb.getType());
        x.ti = cb.getType()->isVoidTy() ? nullptr : tinfo(cb.getType());
        Function* f = cb.getCalledFunction();
        if (!f) if (auto* al = dyn_cast<GlobalAlias>(cb.getCalledOperand())) f = dyn_cast<Function>(al->getAliasee());
        x.op = isa<InvokeInst>(cb) ? D_INVOKE : D_CALL;
        if (f) {
            ci->name = f->getName().str();
            if (f->isIntrinsic()) {
                ci->builtin = intrinsicId(*f);
                if (ci->builtin == B_NOP) { x.op = D_NOP; if (isa<InvokeInst>(cb)) x.op = D_BR; else return; }
                if (ci->builtin == B_IDENTITY) { x.op = D_COPY; x.a = opd(cb.getArgOperand(0)); return; }
            }
            else {
                ci->callee = dfunc(f);
                if (ci->callee->builtin == -1) ci->callee->builtin = builtinId(ci->name, f->isDeclaration());
                ci->builtin = ci->callee->builtin >= 0 ? ci->callee->builtin : -1;
            }
        }
        else ci->target = opd(cb.getCalledOperand());
        for (u32 i = 0; i < cb.arg_size(); i++) {
            Value* a = cb.getArgOperand(i);
            if (a->getType()->isMetadataTy()) { ci->args.push_back({ constOpd(ConstantInt::get(Type::getInt64Ty(llctx), 0)), 1, 64 }); ci->byval.push_back(0); continue; }
            ci->args.push_back({ opd(a), (i32)slotsFor(a->getType()), wof(a->getType()) });
            ci->byval.push_back(cb.isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb.getParamByValType(i)) : 0);
        }
        if (auto* iv = dyn_cast<InvokeInst>(&cb)) {
            x.edges = new std::vector<Edge>;
            mkEdge(x.edges, &B, iv->getNormalDest());
            mkEdge(x.edges, &B, iv->getUnwindDest());
        }
    }
};
static void decode(DFunc* d)
{
    Decoder dd;
    dd.run(d);
}
