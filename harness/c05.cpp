#include "hx.hpp"
#include <array>
#include <deque>
#include <vector>
static u8* doc;
using namespace json::_packed_bytes;
typedef std::optional<json::value> Res;

template <bool C> static Res run(int how, const u8* b, size_t n)
{
    std::string s((const char*)b, n);
    switch (how) {
    case 0: return json::parser<C, std::string, packed_bytes_trait_none>::parse(s);
    case 1: return json::parser<C, std::string, packed_bytes_trait_uint32>::parse(s);
    case 2: return json::parser<C, std::string, packed_bytes_trait_uint64>::parse(s);
#if !defined(MEOJSON_DISABLE_PACKED_BYTES) && defined(__SSE2__)
    case 3: return json::parser<C, std::string, packed_bytes_trait_sse>::parse(s);
#ifdef __AVX2__
    case 4: return json::parser<C, std::string, packed_bytes_trait_avx2>::parse(s);
#endif
#endif
    case 5: { Exact e(b, n); return C ? json::parsec(e.sv()) : json::parse(e.sv()); }
    case 6: { std::vector<char> v(b, b + n); return C ? json::parsec(v) : json::parse(v); }
    case 7: { std::deque<char> v(b, b + n); return C ? json::parsec(v) : json::parse(v); }
    case 8: return C ? json::parsec(s) : json::parse(s);
    case 9: return C ? json::parsec(s.c_str()) : json::parse(s.c_str()); // up to the first NUL
    case 10: {
#define ARR(N) case N: { std::array<char, N> a; memcpy(a.data(), b, N); return C ? json::parsec(a) : json::parse(a); }
        switch (n) { ARR(4) ARR(6) ARR(8) ARR(10) ARR(12) ARR(16) ARR(20) ARR(24) ARR(40) default: symx_fail("harness: array size"); }
    }
    case 11: { std::vector<unsigned char> v(b, b + n); return C ? json::parsec(v) : json::parse(v); }
    case 12: return json::parser<C, std::string_view, packed_bytes_trait_uint32>::parse(std::string_view(s));
    case 13: { Exact e(b, n); return json::parser<C, std::string_view, packed_bytes_trait_uint64>::parse(e.sv()); }
    case 14: { // elements far apart in several chunks: the deque's blocks hold 512 bytes
        std::deque<char> v(512 - n / 2, ' ');
        for (size_t i = 0; i < n; i++) v.push_back((char)b[i]);
        return C ? json::parsec(v) : json::parse(v);
    }
    }
    symx_fail("harness: no such way to parse");
}
template <bool C> static void both(int how, int n)
{
    Res a = run<C>(0, doc, n), b = run<C>(how, doc, n);
    symx_observe(a.has_value());
    symx_reach(a ? "accepted" : "refused");
    symx_check(a.has_value() == b.has_value(), "acceptance depends on the block implementation or container");
    if (a) symx_check(*a == *b && a->to_string() == b->to_string(), "the value depends on the block implementation or container");
}
// params: how, jsonc, n, bytes
extern "C" void same()
{
    int n = (int)symx_param(2);
    n = buildDoc(doc, 3, n);
    int how = (int)symx_param(0);
    if (how == 9) // a C string ends at its first NUL
        for (int i = 0; i < n; i++) symx_assume(doc[i] != 0);
    if (symx_param(1)) both<true>(how, n);
    else both<false>(how, n);
}
