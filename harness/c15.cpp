// Merging objects and concatenating arrays: every overload, operands that overlap.
#include "hv.hpp"
using V = json::value;
using A = json::array;
using O = json::object;

static M joined(const M& a, const M& b)
{
    M r = a;
    if (a.t == '[')
        for (auto& e : b.el) r.el.push_back(e);
    else
        for (auto& e : b.mem) r.slot(e.key) = e.val;
    return r;
}
template <typename T> static void usable(T& t)
{
    (void)t.dumps();
    T c = t;
    symx_check(c == t, "a moved-from operand is not usable");
    t.clear();
    symx_check(t.empty(), "a moved-from operand cannot be cleared");
}
static void same(const O& o, const M& m, const char* msg) { same(o, m.mem, msg); }
static void same(const A& a, const M& m, const char* msg) { same(a, m.el, msg); }
static O join(const O& a, const O& b) { return a | b; }
static O join(const O& a, O&& b) { return a | std::move(b); }
static O join(O&& a, const O& b) { return std::move(a) | b; }
static O join(O&& a, O&& b) { return std::move(a) | std::move(b); }
static V join(const V& a, const O& b) { return a | b; }
static V join(const V& a, O&& b) { return a | std::move(b); }
static V join(V&& a, const O& b) { return std::move(a) | b; }
static V join(V&& a, O&& b) { return std::move(a) | std::move(b); }
static A join(const A& a, const A& b) { return a + b; }
static A join(const A& a, A&& b) { return a + std::move(b); }
static A join(A&& a, const A& b) { return std::move(a) + b; }
static A join(A&& a, A&& b) { return std::move(a) + std::move(b); }
static V join(const V& a, const A& b) { return a + b; }
static V join(const V& a, A&& b) { return a + std::move(b); }
static V join(V&& a, const A& b) { return std::move(a) + b; }
static V join(V&& a, A&& b) { return std::move(a) + std::move(b); }
static O& into(O& a, const O& b) { return a |= b; }
static O& into(O& a, O&& b) { return a |= std::move(b); }
static V& into(V& a, const O& b) { return a |= b; }
static V& into(V& a, O&& b) { return a |= std::move(b); }
static A& into(A& a, const A& b) { return a += b; }
static A& into(A& a, A&& b) { return a += std::move(b); }
static V& into(V& a, const A& b) { return a += b; }
static V& into(V& a, A&& b) { return a += std::move(b); }

template <typename L, typename B> static void ways(L& a, B& b, const M& ma, const M& mb, int way)
{
    M want = joined(ma, mb);
    const L& ca = a;
    const B& cb = b;
    bool aThere = true, bThere = true;
    switch (way) {
    case 0: { auto r = join(ca, cb); same(r, want, "the joined value differs"); r.clear(); break; }
    case 1: { auto r = join(ca, std::move(b)); bThere = false; same(r, want, "the joined value differs"); break; }
    case 2: { auto r = join(std::move(a), cb); aThere = false; same(r, want, "the joined value differs"); break; }
    case 3: { auto r = join(std::move(a), std::move(b)); aThere = bThere = false; same(r, want, "the joined value differs"); break; }
    case 4: {
        auto& r = into(a, cb);
        symx_check(&r == &a, "the assigning operator returns something else");
        same(a, want, "the target differs");
        same(b, mb, "the right operand is changed");
        a.clear();
        same(b, mb, "the operands share content");
        return;
    }
    case 5: {
        auto& r = into(a, std::move(b));
        symx_check(&r == &a, "the assigning operator returns something else");
        same(a, want, "the target differs");
        usable(b);
        same(a, want, "the operands share content");
        return;
    }
    case 6: { // twice, on the result of the first
        auto r = join(join(ca, cb), cb);
        same(r, joined(want, mb), "the value joined twice differs");
        break;
    }
    default: {
        into(a, cb);
        into(a, B(cb));
        same(a, joined(want, mb), "the target joined twice differs");
        same(b, mb, "the right operand is changed");
        return;
    }
    }
    if (aThere) same(a, ma, "the left operand is changed");
    else usable(a);
    if (bThere) same(b, mb, "the right operand is changed");
    else usable(b);
}
// params: left operand is a value, way, template of [left, right]
static void pairs()
{
    M both = tmpl(2);
    M &ma = both.el[0], &mb = both.el[1];
    V va = mk(ma), vb = mk(mb);
    int way = (int)symx_param(1);
    if (symx_param(0)) {
        if (ma.t == '{') ways(va, vb.as_object(), ma, mb, way);
        else ways(va, vb.as_array(), ma, mb, way);
    }
    else if (ma.t == '{') ways(va.as_object(), vb.as_object(), ma, mb, way);
    else ways(va.as_array(), vb.as_array(), ma, mb, way);
}
// both operands are, or are within, the same value. params: way, template
static void own()
{
    M m = tmpl(1);
    V v = mk(m);
    int way = (int)symx_param(0);
    bool obj = m.t == '{';
    M twice = joined(m, m);
    // the first element of the same kind
    M* inner = nullptr;
    V* vi = nullptr;
    if (obj) {
        for (auto& e : m.mem)
            if (!inner && e.val.t == '{') { inner = &e.val; vi = &v.as_object()[e.key]; }
    }
    else
        for (size_t i = 0; i < m.el.size(); i++)
            if (!inner && m.el[i].t == '[') { inner = &m.el[i]; vi = &v.as_array()[i]; }
    if (way >= 6) symx_assume(inner);
    M with = inner ? joined(m, *inner) : M(), back = inner ? joined(*inner, m) : M();
    switch (way) {
    case 0: obj ? (void)(v.as_object() |= v.as_object()) : (void)(v.as_array() += v.as_array()); same(v, twice, "joining a container into itself"); break;
    case 1: obj ? (void)(v |= v.as_object()) : (void)(v += v.as_array()); same(v, twice, "joining a value into itself"); break;
    case 2: same(obj ? V(v.as_object() | v.as_object()) : V(v.as_array() + v.as_array()), twice, "joining a container with itself"); same(v, m, "the operand is changed"); break;
    case 3: same(obj ? (v | v.as_object()) : (v + v.as_array()), twice, "joining a value with itself"); same(v, m, "the operand is changed"); break;
    case 4: { // a moved left operand that is the right one as well
        V r = obj ? V(std::move(v.as_object()) | std::as_const(v).as_object()) : V(std::move(v.as_array()) + std::as_const(v).as_array());
        same(r, twice, "joining a moved container with itself");
        break;
    }
    case 5: { // room to spare: no reallocation
        if (obj) return;
        v.as_array().emplace_back(1);
        v.as_array().emplace_back(2);
        v.as_array().erase(v.as_array().size() - 1);
        v.as_array().erase(v.as_array().size() - 1);
        v.as_array() += v.as_array();
        same(v, twice, "joining an array into itself");
        break;
    }
    case 6: obj ? (void)(v.as_object() |= std::as_const(*vi).as_object()) : (void)(v.as_array() += std::as_const(*vi).as_array()); same(v, with, "joining an inner container into its parent"); break;
    case 7: obj ? (void)(v |= std::as_const(*vi).as_object()) : (void)(v += std::as_const(*vi).as_array()); same(v, with, "joining an inner container into its parent value"); break;
    case 8: same(obj ? V(v.as_object() | vi->as_object()) : V(v.as_array() + vi->as_array()), with, "joining with an inner container"); same(v, m, "the operand is changed"); break;
    case 9: same(obj ? V(vi->as_object() | v.as_object()) : V(vi->as_array() + v.as_array()), back, "joining an inner container with its parent"); same(v, m, "the operand is changed"); break;
    case 11: { // the inner container is moved into its parent
        if (obj) {
            v.as_object() |= std::move(vi->as_object());
            for (auto& e : with.mem) { const V* x = v.find_value(e.key); symx_check(x, "a member is lost"); if (m.find(e.key) != inner || !inner->find(e.key)) { if (m.find(e.key) != inner) same(*x, e.val, "moving an inner container into its parent"); } else same(*x, e.val, "moving an inner container into its parent"); }
            symx_check(v.as_object().size() == with.mem.size(), "another number of members");
        }
        else {
            size_t n = m.el.size();
            v.as_array() += std::move(vi->as_array());
            symx_check(v.as_array().size() == with.el.size(), "another number of elements");
            for (size_t i = 0; i < with.el.size(); i++)
                if (i >= n || &m.el[i] != inner) same(v.as_array()[i], with.el[i], "moving an inner container into its parent");
        }
        (void)v.dumps();
        break;
    }
    default: {
        V r = obj ? (std::move(v) | std::as_const(*vi).as_object()) : (std::move(v) + std::as_const(*vi).as_array());
        same(r, with, "joining a moved value with its inner container");
    }
    }
}
static void leakFree(void (*f)())
{
    uint64_t before = symx_heap_live();
    f();
    symx_check(symx_heap_live() == before, "memory is leaked");
    symx_reach("end");
}
extern "C" void operands() { leakFree(pairs); }
extern "C" void within() { leakFree(own); }
