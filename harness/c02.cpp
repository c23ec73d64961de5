#include "hx.hpp"
static u8* doc;
// params: n, bytes. JSONC acceptance and tree; whatever is JSON is JSONC with the same value.
extern "C" void jsonc()
{
    int n = (int)symx_param(0);
    n = buildDoc(doc, 1, n);
    std::string s((const char*)doc, n);
    auto got = json::parsec(s);
    Ref r(doc, n, true);
    int root = r.document();
    symx_observe(got.has_value());
    symx_reach(root >= 0 ? "well formed" : "malformed");
    symx_check(!got || root >= 0, "malformed JSONC is accepted");
    symx_check(got || root < 0, "well-formed JSONC is refused");
    if (got) checkTree(r, root, *got);
    auto strict = json::parse(s);
    if (strict) {
        symx_reach("JSON as well");
        symx_check(got.has_value(), "JSON refused as JSONC");
        symx_check(*got == *strict && got->to_string() == strict->to_string(), "JSON read as JSONC gives another value");
    }
    else if (got) symx_reach("only JSONC");
}
