#include "hx.hpp"
static u8* doc;
// params: n, bytes. The tree of an accepted document.
extern "C" void tree()
{
    int n = (int)symx_param(0);
    n = buildDoc(doc, 1, n);
    std::string s((const char*)doc, n);
    Ref r(doc, n, false);
    int root = r.document();
    if (root < 0) symx_done();
    auto got = json::parse(s);
    symx_observe(got.has_value());
    if (!got) symx_done(); // acceptance is another property
    symx_reach("well formed");
    if (r.node[root].count > 1) symx_reach("two or more children");
    if (r.nn > 2) symx_reach("nested");
    checkTree(r, root, *got);
    symx_check(s.size() == (size_t)n && !memcmp(s.data(), doc, n), "the input was changed");
}
