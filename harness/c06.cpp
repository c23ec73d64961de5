#include "hx.hpp"
static u8* doc;
using namespace json::_packed_bytes;
template <class F> static void guarded(F f)
{
    uint64_t before = symx_heap_live();
    bool ok = false;
    try {
        ok = f();
    }
    catch (...) {
        symx_fail("parsing threw an exception");
    }
    symx_reach(ok ? "accepted" : "refused");
    symx_observe(ok);
    symx_check(symx_heap_live() == before, "memory is leaked");
}
// params: how, n, bytes. The document in a block of exactly n bytes.
extern "C" void safe()
{
    int n = (int)symx_param(1);
    n = buildDoc(doc, 2, n);
    Exact e(doc, n);
    switch (symx_param(0)) {
    case 0: guarded([&] { return json::parse(e.sv()).has_value(); }); break;
    case 1: guarded([&] { return json::parsec(e.sv()).has_value(); }); break;
    case 2: guarded([&] { return json::parser<false, std::string_view, packed_bytes_trait_uint32>::parse(e.sv()).has_value(); }); break;
    case 3: guarded([&] { return json::parser<false, std::string_view, packed_bytes_trait_uint64>::parse(e.sv()).has_value(); }); break;
    case 4: guarded([&] { return json::parser<false, std::string_view, packed_bytes_trait_none>::parse(e.sv()).has_value(); }); break;
    }
}
