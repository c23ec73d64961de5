// Equality of two values, however they came to be.
#include "hv.hpp"
using V = json::value;
using A = json::array;
using O = json::object;
// 0..2: mk's styles, 3: parsed, 4: through other values first, 5: moved here, 6: copied and changed back
static V come(const M& m, int how)
{
    if (how < 3) return mk(m, how);
    if (how == 3) {
        // numbers and strings may not be a whole document
        std::optional<V> p = json::parse("[" + refText(m) + "]");
        symx_check(p.has_value() && p->is_array() && p->as_array().size() == 1, "the serialised text is refused");
        return p->as_array()[0];
    }
    if (how == 4) {
        V v = O { { "x", A { 1, "y" } } };
        v = V("z");
        v.clear();
        if (m.t == '[') {
            v.as_array();
            for (auto& e : m.el) v.as_array().emplace_back(come(e, 4));
            v.as_array().emplace_back("more");
            v.as_array().erase(m.el.size());
            return v;
        }
        if (m.t == '{') {
            v.as_object();
            v["~~~~"] = 1;
            for (size_t i = m.mem.size(); i-- > 0;) v[m.mem[i].key] = come(m.mem[i].val, 4);
            bool own = m.find("~~~~");
            if (!own) v.erase("~~~~");
            return v;
        }
        v = mk(m, 1);
        return v;
    }
    if (how == 5) {
        A holder;
        holder.emplace_back(mk(m));
        V v = std::move(holder[0]);
        V left = std::move(v); // v is what a move leaves
        v = std::move(left);
        return v;
    }
    V v = mk(m);
    V w = v;
    w = V(false);
    w = A { w, v };
    return w.at(1);
}
template <typename T> static void judge(const T& a, const T& b, bool want)
{
    symx_check((a == b) == want && (b == a) == want, want ? "equal values compare unequal" : "different values compare equal");
    symx_check((a != b) == !want && (b != a) == !want, "!= is not the opposite of ==");
    symx_check(a == a && b == b && !(a != a), "a value is not equal to itself");
    if (want) symx_check(a.dumps() == b.dumps() && a.to_string() == b.to_string() && a.format() == b.format() && a.dumps(2) == b.dumps(2), "equal values serialise differently");
}
// params: how the two are made, template of [a, b]
extern "C" void pairs()
{
    M both = tmpl(2);
    const M &ma = both.el[0], &mb = both.el[1];
    const V a = come(ma, (int)symx_param(0)), b = come(mb, (int)symx_param(1));
    bool want = same(ma, mb);
    symx_observe(want);
    symx_reach(want ? "equal" : "different");
    judge(a, b, want);
    same(a, ma, "comparing changed the left operand");
    same(b, mb, "comparing changed the right operand");
    if (ma.t == '[' && mb.t == '[') judge(a.as_array(), b.as_array(), want);
    if (ma.t == '{' && mb.t == '{') judge(a.as_object(), b.as_object(), want);
    // a copy is equal to what it is a copy of, and so are containers of them
    V c = a;
    judge(V(c), a, true);
    judge(A { a, b }, A { c, b }, true);
    judge(A { a, b }, A { b, c }, want);
    judge(A { a }, A { a, b }, false);
    judge(O { { "k", a }, { "l", 1 } }, O { { "l", 1 }, { "k", b } }, want);
    judge(V(O { { "k", a } }), V(O { { "k", a }, { "l", b } }), false);
    judge(V(O { { "k", a } }), V(O { { "K", a } }), false);
    symx_reach("end");
}
