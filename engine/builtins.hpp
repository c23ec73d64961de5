// Names of the intrinsics and library functions the engine implements itself.
#pragma once
enum Builtin {
    B_NOP, B_IDENTITY, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_LIFE_S, B_LIFE_E, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP,
    B_BSWAP, B_FSHL, B_FSHR, B_UADDO, B_SADDO, B_USUBO, B_SSUBO, B_UMULO, B_SMULO, B_UADDS, B_USUBS, B_SADDS, B_SSUBS, B_TRAP,
    B_OBJSIZE, B_ISCONST, B_RED_OR, B_RED_AND, B_RED_ADD, B_RED_XOR, B_RED_UMAX, B_RED_UMIN, B_RED_SMAX, B_RED_SMIN, B_PMOVMSKB, B_PTESTZ, B_PTESTC, B_PTESTNZC, B_TYPEID,
    B_VASTART, B_VACOPY, B_FABS, B_CEIL, B_FLOOR, B_BITREV, B_NEON_PMAX, B_NEON_PMIN, B_NEON_SHRN, B_NEON_PADD,
    B_UNKNOWN_INTR,
    B_MALLOC, B_CALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_NEW_AL, B_DEL_AL, B_MEMCMP, B_BCMP, B_EXALLOC, B_EXFREE, B_THROW, B_BEGINCATCH, B_ENDCATCH,
    B_RETHROW, B_ABORT, B_ASSERTFAIL, B_GUARD_ACQ, B_GUARD_REL, B_ATEXIT, B_ERRNO, B_STRTOD, B_STRTOF, B_STRTOLD, B_VSNPRINTF,
    B_S_SYMBOLIC, B_S_ASSUME, B_S_CHECK, B_S_REACH, B_S_PARAM, B_S_OBSERVE, B_S_HEAPLIVE, B_S_CONC, B_S_PRINT, B_S_FAIL, B_S_ALLOCS, B_S_DONE, B_S_ISNATIVE, B_UNCAUGHT, B_MEMCHR, B_S_OPAQUE, B_S_FREEZE, B_S_PIN, B_FPCLASS
};
static int intrinsicId(Function& f)
{
    static const std::vector<std::pair<const char*, int>> t = {
        { "llvm.memcpy", B_MEMCPY }, { "llvm.memmove", B_MEMMOVE }, { "llvm.memset", B_MEMSET }, { "llvm.lifetime.start", B_LIFE_S }, { "llvm.lifetime.end", B_LIFE_E },
        { "llvm.umin", B_UMIN }, { "llvm.umax", B_UMAX }, { "llvm.smin", B_SMIN }, { "llvm.smax", B_SMAX }, { "llvm.abs", B_ABS }, { "llvm.ctlz", B_CTLZ }, { "llvm.cttz", B_CTTZ },
        { "llvm.ctpop", B_CTPOP }, { "llvm.bswap", B_BSWAP }, { "llvm.bitreverse", B_BITREV }, { "llvm.fshl", B_FSHL }, { "llvm.fshr", B_FSHR },
        { "llvm.uadd.with.overflow", B_UADDO }, { "llvm.sadd.with.overflow", B_SADDO }, { "llvm.usub.with.overflow", B_USUBO }, { "llvm.ssub.with.overflow", B_SSUBO },
        { "llvm.umul.with.overflow", B_UMULO }, { "llvm.smul.with.overflow", B_SMULO }, { "llvm.uadd.sat", B_UADDS }, { "llvm.usub.sat", B_USUBS }, { "llvm.sadd.sat", B_SADDS }, { "llvm.ssub.sat", B_SSUBS },
        { "llvm.trap", B_TRAP }, { "llvm.ubsantrap", B_TRAP }, { "llvm.debugtrap", B_TRAP }, { "llvm.expect", B_IDENTITY }, { "llvm.assume", B_NOP }, { "llvm.experimental.noalias", B_NOP },
        { "llvm.dbg", B_NOP }, { "llvm.objectsize", B_OBJSIZE }, { "llvm.is.constant", B_ISCONST }, { "llvm.vector.reduce.or", B_RED_OR }, { "llvm.vector.reduce.and", B_RED_AND },
        { "llvm.vector.reduce.add", B_RED_ADD }, { "llvm.vector.reduce.xor", B_RED_XOR }, { "llvm.vector.reduce.umax", B_RED_UMAX }, { "llvm.vector.reduce.umin", B_RED_UMIN },
        { "llvm.vector.reduce.smax", B_RED_SMAX }, { "llvm.vector.reduce.smin", B_RED_SMIN },
        { "llvm.x86.sse2.pmovmskb", B_PMOVMSKB }, { "llvm.x86.avx2.pmovmskb", B_PMOVMSKB }, { "llvm.x86.sse41.ptestz", B_PTESTZ }, { "llvm.x86.avx.ptestz", B_PTESTZ },
        { "llvm.x86.sse41.ptestc", B_PTESTC }, { "llvm.x86.avx.ptestc", B_PTESTC }, { "llvm.x86.sse41.ptestnzc", B_PTESTNZC }, { "llvm.x86.avx.ptestnzc", B_PTESTNZC },
        { "llvm.eh.typeid.for", B_TYPEID }, { "llvm.stacksave", B_ISCONST }, { "llvm.stackrestore", B_NOP }, { "llvm.va_start", B_VASTART }, { "llvm.va_end", B_NOP }, { "llvm.va_copy", B_VACOPY },
        { "llvm.fabs", B_FABS }, { "llvm.is.fpclass", B_FPCLASS }, { "llvm.ceil", B_CEIL }, { "llvm.floor", B_FLOOR }, { "llvm.launder", B_IDENTITY }, { "llvm.strip", B_IDENTITY }, { "llvm.invariant", B_NOP }, { "llvm.prefetch", B_NOP }, { "llvm.threadlocal.address", B_IDENTITY },
        { "llvm.donothing", B_NOP }, { "llvm.aarch64.neon.umaxv", B_RED_UMAX }, { "llvm.aarch64.neon.uminv", B_RED_UMIN }, { "llvm.aarch64.neon.uaddv", B_RED_ADD }, { "llvm.aarch64.neon.saddv", B_RED_ADD },
        { "llvm.aarch64.neon.umaxp", B_NEON_PMAX }, { "llvm.aarch64.neon.uminp", B_NEON_PMIN }, { "llvm.aarch64.neon.addp", B_NEON_PADD },
    };
    std::string n = f.getName().str();
    for (auto& p : t) {
        size_t l = strlen(p.first);
        if (!n.compare(0, l, p.first) && (n.size() == l || n[l] == '.' || !strcmp(p.first, "llvm.dbg") || true)) return p.second;
    }
    return B_UNKNOWN_INTR;
}
static int builtinId(const std::string& n, bool decl)
{
    static const std::map<std::string, int> t = {
        { "malloc", B_MALLOC }, { "calloc", B_CALLOC }, { "free", B_FREE }, { "_Znwm", B_NEW }, { "_Znam", B_NEWA }, { "_ZdlPv", B_DEL }, { "_ZdlPvm", B_DEL }, { "_ZdaPv", B_DELA }, { "_ZdaPvm", B_DELA },
        { "_ZnwmRKSt9nothrow_t", B_NEW }, { "_ZnamRKSt9nothrow_t", B_NEWA }, { "_ZnwmSt11align_val_t", B_NEW_AL }, { "_ZdlPvSt11align_val_t", B_DEL_AL }, { "_ZdlPvmSt11align_val_t", B_DEL_AL },
        { "memcpy", B_MEMCPY }, { "memmove", B_MEMMOVE }, { "memset", B_MEMSET }, { "memcmp", B_MEMCMP }, { "bcmp", B_BCMP }, { "memchr", B_MEMCHR },
        { "__cxa_allocate_exception", B_EXALLOC }, { "__cxa_free_exception", B_EXFREE }, { "__cxa_throw", B_THROW }, { "__cxa_begin_catch", B_BEGINCATCH }, { "__cxa_end_catch", B_ENDCATCH },
        { "__cxa_rethrow", B_RETHROW }, { "abort", B_ABORT }, { "_ZSt9terminatev", B_ABORT }, { "__cxa_pure_virtual", B_ABORT }, { "exit", B_ABORT }, { "__cxa_throw_bad_array_new_length", B_ABORT },
        { "_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERTFAIL }, { "__assert_fail", B_ASSERTFAIL }, { "__cxa_guard_acquire", B_GUARD_ACQ }, { "__cxa_guard_release", B_GUARD_REL },
        { "__cxa_guard_abort", B_GUARD_REL }, { "__cxa_atexit", B_ATEXIT }, { "__cxa_thread_atexit", B_ATEXIT }, { "__errno_location", B_ERRNO }, { "strtod", B_STRTOD }, { "strtof", B_STRTOF }, { "strtold", B_STRTOLD },
        { "vsnprintf", B_VSNPRINTF }, { "_ZSt19uncaught_exceptionsv", B_UNCAUGHT }, { "_ZSt18uncaught_exceptionv", B_UNCAUGHT },
        { "symx_symbolic", B_S_SYMBOLIC }, { "symx_assume", B_S_ASSUME }, { "symx_check", B_S_CHECK }, { "symx_reach", B_S_REACH }, { "symx_param", B_S_PARAM }, { "symx_observe", B_S_OBSERVE },
        { "symx_heap_live", B_S_HEAPLIVE }, { "symx_conc", B_S_CONC }, { "symx_print", B_S_PRINT }, { "symx_fail", B_S_FAIL }, { "symx_done", B_S_DONE }, { "symx_is_native", B_S_ISNATIVE }, { "symx_opaque", B_S_OPAQUE }, { "symx_freeze", B_S_FREEZE }, { "symx_pin", B_S_PIN }, { "symx_real_strtod", B_STRTOD }, { "symx_real_strtof", B_STRTOF }, { "symx_real_strtold", B_STRTOLD },
    };
    if (!decl) return -2;
    auto it = t.find(n);
    return it == t.end() ? -2 : it->second;
}
