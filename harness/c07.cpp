#include "hv.hpp"
// params: style, indent (-1 none, -2 any up to 8), n, template
extern "C" void roundtrip()
{
    M m = tmpl(2);
    json::value v = mk(m, (int)symx_param(0));
    int ind = (int)symx_param(1);
    if (ind == -2) ind = (int)symx_pick(9, "indent");
    std::string a = ind < 0 ? v.dumps() : v.dumps((size_t)ind);
    symx_observe(a.size());
    auto back = json::parse(a);
    if (!back) symx_fail("the serialised text is refused");
    same(*back, m, "the parsed text is another value");
    symx_check(*back == v && v == *back, "the parsed text is unequal to the value");
    if (symx_param(0) == 1 || ind < 0) {
        std::string b = ind < 0 ? v.to_string() : v.format((size_t)ind);
        auto c = json::parsec(b);
        if (!c) symx_fail("parsec refuses the serialised text");
        same(*c, m, "parsec gives another value");
        std::string d = m.t == '[' ? v.as_array().dumps() : v.as_object().to_string();
        auto e = json::parse(d);
        if (!e) symx_fail("the serialised container is refused");
        same(*e, m, "the parsed container is another value");
    }
    same(v, m, "serialising changed the value");
    symx_reach("end");
}
