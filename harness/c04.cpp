#include "hx.hpp"
static u8* doc;
// params: n, bytes. A document around string literals: acceptance and text.
extern "C" void text()
{
    int n = (int)symx_param(0);
    n = buildDoc(doc, 1, n);
    std::string s((const char*)doc, n);
    Ref r(doc, n, false);
    int root = r.document();
    auto got = json::parse(s);
    symx_observe(got.has_value());
    symx_reach(root >= 0 ? "well formed" : "malformed");
    symx_check(!got || root >= 0, "a malformed string literal is accepted");
    symx_check(got || root < 0, "a well-formed string literal is refused");
    if (got) {
        std::string t = got->to_string();
        for (char c : t) symx_observe((u8)c);
        checkTree(r, root, *got);
    }
}
