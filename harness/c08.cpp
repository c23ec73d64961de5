#include "hv.hpp"
#include <sstream>
static bool eq(const std::string& a, const std::string& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
// params: style, indent (-2: any up to 8), n, template
extern "C" void text()
{
    M m = tmpl(2);
    json::value v = mk(m, (int)symx_param(0));
    int ind = (int)symx_param(1);
    if (ind == -2) ind = (int)symx_pick(9, "indent");
    std::string want = refText(m), got = v.to_string();
    symx_observe(got.size());
    symx_check(eq(got, want), "to_string() is not the canonical text");
    symx_check(eq(v.dumps(), want), "dumps() is not the canonical text");
    if (m.t == '[') symx_check(eq(v.as_array().to_string(), want) && eq(v.as_array().dumps(), want), "the array's own text is not the canonical text");
    if (m.t == '{') symx_check(eq(v.as_object().to_string(), want) && eq(v.as_object().dumps(), want), "the object's own text is not the canonical text");
    std::string w1 = refText(m, ind), w2 = refText(m, ind, true), f = v.format((size_t)ind);
    symx_check(eq(f, w1) || eq(f, w2), "format() has another layout");
    f = v.dumps((size_t)ind);
    symx_check(eq(f, w1) || eq(f, w2), "dumps(n) has another layout");
    if (m.t == '[') f = v.as_array().format((size_t)ind);
    if (m.t == '{') f = v.as_object().dumps((size_t)ind);
    symx_check(eq(f, w1) || eq(f, w2), "the container's own layout differs");
    same(v, m, "serialising changed the value");
    symx_reach("end");
}
// the output is RFC 8259 text: judged by the reader, not by the reference writer
extern "C" void wellformed()
{
    M m = tmpl(2);
    json::value v = mk(m, (int)symx_param(0));
    int ind = (int)symx_param(1);
    std::string t = ind < 0 ? v.to_string() : v.format((size_t)ind);
    symx_check(t.size() < 256, "harness: long text");
    static u8 b[256];
    memcpy(b, t.data(), t.size());
    for (size_t i = 0; i < t.size(); i++) symx_check((b[i] >= 0x20) | ((b[i] == '\n') & (ind >= 0)), "a control character in the output");
    Ref r(b, (int)t.size(), false);
    int k = r.document();
    symx_check(k >= 0, "the output is not JSON");
    checkTree(r, k, v);
    symx_reach("end");
}
// operator<<
extern "C" void shift()
{
    M m = tmpl(2);
    json::value v = mk(m, (int)symx_param(0));
    std::ostringstream o;
    if (m.t == '[' && symx_param(1)) o << v.as_array();
    else if (m.t == '{' && symx_param(1)) o << v.as_object();
    else o << v;
    symx_check(eq(o.str(), v.format()), "operator<< does not write format()'s text");
    symx_reach("end");
}
