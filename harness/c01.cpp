#include "hx.hpp"
static u8* doc;
// params: n, bytes. Acceptance of a document given as std::string.
extern "C" void accept()
{
    int n = (int)symx_param(0);
    n = buildDoc(doc, 1, n);
    std::string s((const char*)doc, n);
    bool got = json::parse(s).has_value();
    Ref r(doc, n, false);
    bool want = r.document() >= 0;
    symx_observe(got);
    symx_reach(want ? "well formed" : "malformed");
    symx_check(!got || want, "a malformed document is accepted");
    symx_check(got || !want, "a well-formed document is refused");
}
