#ifdef __aarch64__
#include "symx.h"
#include <cstddef>
#include "parser/packed_bytes.hpp"
typedef unsigned char u8;
#else
#include "hx.hpp"
#endif
using namespace json::_packed_bytes;
template <class T> static void block()
{
    static_assert(T::available, "not part of this build");
    const int N = T::step;
    alignas(64) u8 b[N + 1];
    symx_symbolic(b + 1, N, "block"); // odd address: loads must not assume alignment
    // reference, without branches
    unsigned first = N;
    for (int i = N - 1; i >= 0; i--) {
        u8 c = b[i + 1];
        unsigned m = 0u - (unsigned)((c < 0x20) | (c == '"') | (c == '\\'));
        first = (first & ~m) | ((unsigned)i & m);
    }
    auto x = T::load_unaligned(b + 1);
    auto r = T::less(x, 32);
    r = T::bitwise_or(r, T::equal(x, (uint8_t)'"'));
    r = T::bitwise_or(r, T::equal(x, (uint8_t)'\\'));
    bool none = T::is_all_zero(r);
    symx_observe(none);
    symx_check(none == (first == (unsigned)N), "the block test misses a special byte or reports one that is not there");
    if (none) symx_done();
    symx_reach("a special byte");
    size_t k = T::first_nonzero_byte(r);
    symx_check(k == first, "the reported index is not that of the first special byte");
    symx_observe(symx_conc(k));
}
extern "C" void block_neon()
{
#ifdef __aarch64__
    block<packed_bytes_trait_neon>();
#endif
}
extern "C" void block_u32() { block<packed_bytes_trait_uint32>(); }
extern "C" void block_u64() { block<packed_bytes_trait_uint64>(); }
extern "C" void block_sse()
{
#ifdef __SSE2__
    block<packed_bytes_trait_sse>();
#endif
}
extern "C" void block_avx2()
{
#ifdef __AVX2__
    block<packed_bytes_trait_avx2>();
#endif
}
// no byte of the argument decides: 64-bit reference by halving
static int ref_clz(uint64_t x, int w)
{
    // number of leading zeros: w minus the number of significant bits, smeared and counted
    for (int s = 1; s < w; s *= 2) x |= x >> s;
    int n = 0;
    for (int i = 0; i < w; i++) n += (int)((x >> i) & 1);
    return w - n;
}
static int ref_ctz(uint64_t x, int w)
{
    uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1);
    uint64_t y = ~x & (x - 1) & m; // ones exactly below the lowest one
    int n = 0;
    for (int i = 0; i < w; i++) n += (int)((y >> i) & 1);
    return n;
}
extern "C" void bits32()
{
    uint32_t x;
    symx_symbolic(&x, 4, "x");
    using namespace json::_bitops;
    symx_check(countl_zero(x) == ref_clz(x, 32), "countl_zero 32");
    symx_check(countr_zero(x) == ref_ctz(x, 32), "countr_zero 32");
    symx_check(countl_one(x) == ref_clz((uint32_t)~x, 32), "countl_one 32");
    symx_check(countr_one(x) == ref_ctz((uint32_t)~x, 32), "countr_one 32");
    symx_reach("end");
}
extern "C" void bits64()
{
    uint64_t x;
    symx_symbolic(&x, 8, "x");
    using namespace json::_bitops;
    symx_check(countl_zero(x) == ref_clz(x, 64), "countl_zero 64");
    symx_check(countr_zero(x) == ref_ctz(x, 64), "countr_zero 64");
    symx_check(countl_one(x) == ref_clz(~x, 64), "countl_one 64");
    symx_check(countr_one(x) == ref_ctz(~x, 64), "countr_one 64");
    symx_reach("end");
}
extern "C" void endian()
{
    symx_check(json::_bitops::is_little_endian(), "this is a little-endian machine");
    symx_reach("end");
}
