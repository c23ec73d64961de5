// Reflected structs of every size. params: size (100 more: with an optional field and one with a key of its own)
#include "hv.hpp"
static std::string field(int i)
{
    std::string s = "f";
    if (i >= 10) s += (char)('0' + i / 10);
    s += (char)('0' + i % 10);
    return s;
}
#include "c17n.hpp"
using V = json::value;
template <typename T> static void sized()
{
    int k = (int)symx_pick(T::n + 1, "field"), how = 9;
    M m;
    m.t = '{';
    for (int i = 0; i < T::n; i++) m.slot(T::key(i)) = num(i * 7 + 1);
    m.slot("f") = num(-5);
    u8 d = 0;
    if (k < T::n) {
        how = (int)symx_pick(4, "how");
        switch (how) {
        case 0: m.drop(T::key(k)); break;
        case 1: m.slot(T::key(k)) = M('n'); break;
        case 2: m.slot(T::key(k)) = str("7"); break;
        default:
            symx_symbolic(&d, 1, "digit");
            symx_assume((u8)(d - '0') < 10);
            m.slot(T::key(k)) = M('#', std::string(1, (char)d));
        }
    }
    bool want = how >= 3 || (how == 0 && T::opt(k));
    const V v = mk(m);
    T s {};
    std::string e1, e2;
    symx_check(T().check_json(v, e1) == want && v.is<T>() == want, "check_json differs");
    symx_check(s.from_json(v, e2) == want, "from_json differs");
    same(v, m, "reading changed the value");
    symx_reach(want ? "loads" : "refused");
    if (!want) {
        symx_check(sameText(e1, T::key(k)) && sameText(e2, T::key(k)), "a key that is fine is blamed");
        return;
    }
    for (int i = 0; i < T::n; i++) symx_check(s.at(i) == (i != k ? i * 7 + 1 : how == 3 ? d - '0' : 1000 + i), "a field is loaded wrongly");
    const V w = s.to_json();
    M wm;
    wm.t = '{';
    for (int i = 0; i < T::n; i++) wm.slot(T::key(i)) = i == k && how == 3 ? M('#', std::string(1, (char)d)) : num(i == k && how == 0 ? 1000 + i : i * 7 + 1);
    same(w, wm, "to_json differs");
    T t {};
    symx_check(t.from_json(w), "what to_json gives does not load");
    for (int i = 0; i < T::n; i++) symx_check(t.at(i) == s.at(i), "what to_json gives loads differently");
}
static void run()
{
    int64_t n = symx_param(0);
#define HX_ONE(N, T) if (n == N) { sized<T>(); symx_reach("end"); return; }
    SIZES(HX_ONE)
    symx_fail("harness: no such size");
}
