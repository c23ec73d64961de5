#include "hx.hpp"
#include <sstream>
static u8* doc;
// params: flags (1 check_bom, 2 comments), start (0: read position at 0, 1: elsewhere), n, bytes
extern "C" void stream()
{
    bool bom = symx_param(0) & 1, com = symx_param(0) & 2;
    int n = (int)symx_param(2);
    n = buildDoc(doc, 3, n);
    std::string s((const char*)doc, n);
    std::istringstream in(s);
    if (symx_param(1) && n > 1) in.seekg(1);
    auto got = json::parse(in, bom, com);
    std::string t = s;
    bool marked = n >= 3 && doc[0] == 0xEF && doc[1] == 0xBB && doc[2] == 0xBF;
    if (marked) symx_reach("byte order mark");
    if (marked && bom) t = s.substr(3);
    auto want = com ? json::parsec(t) : json::parse(t);
    symx_observe(got.has_value());
    symx_reach(want ? "accepted" : "refused");
    symx_check(got.has_value() == want.has_value(), "a stream is judged differently from its content");
    if (got) symx_check(*got == *want && got->to_string() == want->to_string(), "a stream gives another value than its content");
}
