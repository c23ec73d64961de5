// Interface between harnesses and the engine (or, natively, the replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void symx_symbolic(void* p, size_t n, const char* name);
void symx_assume(bool c);
void symx_check(bool c, const char* msg);
[[noreturn]] void symx_fail(const char* msg);
void symx_reach(const char* label);
int64_t symx_param(int i);
void symx_observe(uint64_t v);
uint64_t symx_heap_live(void);
uint64_t symx_conc(uint64_t v);
uint64_t symx_opaque(uint64_t v);
void symx_print(const char* s, uint64_t v);
int symx_is_native(void);
[[noreturn]] void symx_done(void);
// engine only: from now on (1) a plain write to memory that already exists is a violation; 0 lifts it
void symx_freeze(int on);
// f(arg) by two threads at once. The engine runs f twice and refuses any write to memory that was
// there before the call, natively two threads run it. Both must return the same number
uint64_t symx_concurrent(uint64_t (*f)(const void*), const void* arg);
}
// a symbolic byte in [0, n), made concrete: one path per value
static inline unsigned symx_pick(unsigned n, const char* name)
{
    uint8_t b = 0;
    symx_symbolic(&b, 1, name);
    symx_assume(b < n);
    return (unsigned)symx_conc(b);
}
