// Decoded form of LLVM functions.
#pragma once
#include "expr.hpp"
#include <llvm/ADT/APFloat.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <memory>

using namespace llvm;

struct Slot {
    u64 lo, hi;
    Expr* e;
    u128 v() const { return ((u128)hi << 64) | lo; }
    void set(u128 x) { lo = (u64)x; hi = (u64)(x >> 64); e = nullptr; }
};

struct Leaf { u32 off; u16 w; u16 bytes; };
struct TInfo {
    std::vector<Leaf> leaves;
    u64 size = 0;
    bool memok = true, ok = true;
};

enum DOp : u16 {
    D_BIN, D_ICMP, D_TRUNC, D_ZEXT, D_SEXT, D_COPY, D_BITCAST, D_SELECT, D_GEP, D_LOAD, D_STORE, D_ALLOCA, D_BR, D_CONDBR,
    D_SWITCH, D_CALL, D_INVOKE, D_RET, D_UNREACH, D_EXTRACTEL, D_INSERTEL, D_SHUFFLE, D_GATHER, D_RESUME, D_FBIN,
    D_FCMP, D_FCAST, D_FNEG, D_RMW, D_CMPXCHG, D_NOP, D_UNSUP
};

struct DFunc;
struct Edge {
    u32 target = 0; // pc
    u32 block = 0;
    std::vector<std::array<i32, 3>> moves; // dst, src, n
};
struct GepTerm { i32 op; u16 w; i64 scale; };
struct CallInfo {
    DFunc* callee = nullptr; // direct
    int builtin = -1;
    i32 target = 0; // indirect operand
    std::vector<std::array<i32, 3>> args; // operand, n, width of first leaf
    std::vector<u64> byval;               // size or 0
    std::string name;
    CallBase* cb = nullptr;
};
struct PadClause { bool isCatch; u64 ti; };
struct DInst {
    u16 op, sub = 0, w = 0, n = 0, w2 = 0;
    i32 dst = -1, a = 0, b = 0, c = 0;
    u32 bytes = 0;
    const TInfo* ti = nullptr;
    std::vector<Edge>* edges = nullptr;
    std::vector<GepTerm>* gep = nullptr;
    i64 imm = 0;
    CallInfo* call = nullptr;
    std::vector<u64>* cases = nullptr; // switch values; edges[i+1] by case, edges[0] default
    std::vector<i32>* list = nullptr;  // shuffle mask, gather operands
    Instruction* inst = nullptr;
};
struct DFunc {
    Function* F = nullptr;
    std::string name, dname;
    int id = 0;
    bool decoded = false, repo = false;
    int builtin = -1;
    u32 nslots = 0;
    std::vector<i32> argslot;
    std::vector<u16> argn;
    std::vector<DInst> code;
    std::vector<u32> blockStart;
    u32 blockBase = 0, nblocks = 0;
    // landing pads: per block index
    std::map<u32, std::vector<PadClause>> pads;
    std::map<u32, bool> padCleanup;
    std::map<u32, i32> padDst;
    std::map<const Value*, i32> slotOf; // dropped after decode
};
