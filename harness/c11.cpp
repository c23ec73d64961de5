#include "hv.hpp"
using V = json::value;
static void leakFree(void (*f)())
{
    uint64_t before = symx_heap_live();
    f();
    symx_check(symx_heap_live() == before, "memory is leaked");
    symx_reach("end");
}
static M other(unsigned k)
{
    switch (k) {
    case 0: return M('n');
    case 1: return str("x");
    case 2: return num(7);
    default: {
        M m('[');
        m.el.push_back(str("y"));
        return m;
    }
    }
}
// picks a descendant (or the root itself): both trees are walked together
static V& walk(V& v, M& m, M** at, bool proper)
{
    V* p = &v;
    M* q = &m;
    for (bool first = proper;; first = false) {
        size_t n = q->t == '[' ? q->el.size() : q->t == '{' ? q->mem.size() : 0;
        if (!n) {
            if (first) symx_assume(false);
            break;
        }
        unsigned k = symx_pick((unsigned)n + !first, "step");
        if (k == n) break;
        if (q->t == '[') {
            p = &p->as_array()[k];
            q = &q->el[k];
        }
        else {
            p = &p->as_object()[q->mem[k].key];
            q = &q->mem[k].val;
        }
    }
    *at = q;
    return *p;
}
static void mutate(V& v, M& m)
{
    unsigned op = symx_pick(5, "mutation");
    switch (op) {
    case 0: {
        M o = other(symx_pick(4, "new"));
        v = mk(o);
        m = o;
        break;
    }
    case 1: v.clear(); m = M('n'); break;
    case 2: // a new element or member
        symx_assume(m.t == '[' || m.t == '{');
        if (m.t == '[') {
            v.as_array().emplace_back("new");
            m.el.push_back(str("new"));
        }
        else {
            v["new"] = "new";
            m.slot("new") = str("new");
        }
        break;
    case 3: // the first one goes
        symx_assume((m.t == '[' && m.el.size()) || (m.t == '{' && m.mem.size()));
        if (m.t == '[') {
            v.erase(0);
            m.el.erase(m.el.begin());
        }
        else {
            v.as_object().erase(v.as_object().begin());
            m.mem.erase(m.mem.begin());
        }
        break;
    default: // all of them go
        symx_assume(m.t == '[' || m.t == '{');
        if (m.t == '[') v.as_array().clear();
        else v.as_object().clear();
        m.el.clear();
        m.mem.clear();
    }
}
// a copy is equal and independent. params: style, way, template
static void copying()
{
    M m = tmpl(2);
    V v = mk(m, (int)symx_param(0));
    V c;
    switch (symx_param(1)) {
    case 0: c.~V(); new (&c) V(v); break;
    case 1: c = mk(other(symx_pick(4, "target"))); c = v; break;
    case 2: {
        json::array a;
        a.emplace_back(v);
        json::array b(a), d { 1, 2 };
        d = b;
        c = d[0];
        a.clear();
        same(b[0], m, "the copy of an array shares its elements");
        b[0] = nullptr;
        same(d[0], m, "the assigned array shares its elements");
        d[0] = nullptr;
        break;
    }
    case 3: {
        json::object a;
        a["k"] = v;
        json::object b(a), d { { "x", 1 } };
        d = b;
        c = d.at("k");
        a["k"] = nullptr;
        same(b["k"], m, "the copy of an object shares its members");
        b.clear();
        same(d["k"], m, "the assigned object shares its members");
        d["k"] = nullptr;
        break;
    }
    case 4: c = json::array { v, v }[1]; break;
    case 5: c = V { { "a", v }, { "b", v } }.at("b"); break;
    case 6: {
        const V& k = v;
        c = m.t == '[' ? (symx_pick(2, "cast") ? V(static_cast<json::array>(k)) : V(k.as_array())) : m.t == '{' ? (symx_pick(2, "cast") ? V(static_cast<json::object>(k)) : V(k.as_object())) : V(k);
        break;
    }
    default: c = std::as_const(v).as<V>();
    }
    same(c, m, "the copy differs");
    symx_check(c == v, "the copy is not equal to its source");
    M mc = m, mv = m, *q;
    bool copyFirst = symx_pick(2, "which");
    V& t = copyFirst ? walk(c, mc, &q, false) : walk(v, mv, &q, false);
    mutate(t, *q);
    same(c, mc, copyFirst ? "the change is lost" : "changing the source shows in the copy");
    same(v, mv, copyFirst ? "changing the copy shows in the source" : "the change is lost");
    if (copyFirst) { V gone(std::move(c)); }
    else { V gone(std::move(v)); }
    same(copyFirst ? v : c, copyFirst ? mv : mc, "destroying one of them shows in the other");
}
// the source of a move is still a value
static void usable(V& v)
{
    symx_check(v.valid(), "a moved-from value is invalid");
    (void)v.empty();
    (void)v.type_name();
    std::string s = v.dumps() + v.format();
    V c = v;
    symx_check(c == v && !(c != v), "a copy of a moved-from value is not equal to it");
    symx_check(c.dumps() == v.dumps(), "a copy of a moved-from value serialises differently");
    (void)v.is<int>();
    (void)v.contains("a");
    (void)v.find<V>(0);
    M o = other(symx_pick(4, "reuse"));
    v = mk(o);
    same(v, o, "a moved-from value cannot be assigned");
}
// params: style, way, template
static void moving()
{
    M m = tmpl(2);
    V v = mk(m, (int)symx_param(0));
    V c;
    switch (symx_param(1)) {
    case 0: c.~V(); new (&c) V(std::move(v)); break;
    case 1: c = mk(other(symx_pick(4, "target"))); c = std::move(v); break;
    case 2: c = std::move(v).as<V>(); break;
    case 3: {
        json::array a;
        a.push_back(std::move(v));
        json::array b(std::move(a)), d { 1, 2 };
        same(b[0], m, "the moved array differs");
        d = std::move(b);
        symx_check(d.size() == 1, "the moved array has another size");
        c = std::move(d[0]);
        usable(d[0]);
        for (json::array* x : { &a, &b }) {
            (void)x->dumps();
            json::array y = *x;
            symx_check(y == *x, "a copy of a moved-from array is not equal to it");
            x->clear();
            x->emplace_back(1);
            symx_check(x->size() == 1 && x->at(0).as_integer() == 1, "a moved-from array is not usable");
            *x = json::array { 3 };
        }
        break;
    }
    case 4: {
        json::object a;
        a.emplace("k", std::move(v));
        json::object b(std::move(a)), d { { "x", 1 } };
        same(b["k"], m, "the moved object differs");
        d = std::move(b);
        symx_check(d.size() == 1, "the moved object has another size");
        c = std::move(d["k"]);
        usable(d["k"]);
        for (json::object* x : { &a, &b }) {
            (void)x->dumps();
            json::object y = *x;
            symx_check(y == *x, "a copy of a moved-from object is not equal to it");
            x->clear();
            (*x)["a"] = 1;
            symx_check(x->size() == 1 && x->at("a").as_integer() == 1, "a moved-from object is not usable");
            *x = json::object { { "b", 3 } };
        }
        break;
    }
    case 5:
        if (m.t == '[') {
            json::array a = std::move(v.as_array());
            same(a, m.el, "the moved array differs");
            c = V(std::move(a));
            (void)a.dumps();
        }
        else if (m.t == '{') {
            json::object a = std::move(v.as_object());
            same(a, m.mem, "the moved object differs");
            c = V(std::move(a));
            (void)a.dumps();
        }
        else c = std::move(v);
        break;
    default: std::swap(c, v); same(v, M('n'), "swap left something else"); break;
    }
    same(c, m, "the moved value differs");
    usable(v);
    same(c, m, "using the source shows in the target");
}
// the target overlaps the source. params: style, way, template
static void overlap()
{
    M m = tmpl(2), *q;
    V v = mk(m, (int)symx_param(0));
    int way = (int)symx_param(1);
    V& d = walk(v, m, &q, way > 3);
    M was = *q, all = m;
    switch (way) {
    case 0: d = static_cast<const V&>(d); same(v, all, "self-assignment changed the value"); return;
    case 1: d = static_cast<V&&>(d); same(v, all, "self-move changed the value"); return;
    case 2: v = d; same(v, was, "the value is not the descendant it was assigned from"); return;
    case 3: v = std::move(d); same(v, was, "the value is not the descendant it was moved from"); return;
    case 4: // array and object assignment from within
    case 5:
        symx_assume(m.t == was.t && (was.t == '[' || was.t == '{'));
        if (was.t == '[') way == 4 ? (void)(v.as_array() = std::as_const(d).as_array()) : (void)(v.as_array() = std::move(d.as_array()));
        else way == 4 ? (void)(v.as_object() = std::as_const(d).as_object()) : (void)(v.as_object() = std::move(d.as_object()));
        same(v, was, "the container is not the descendant it was assigned from");
        return;
    case 6: // the value into its own descendant
        d = std::as_const(v);
        *q = all;
        same(v, m, "assigning a value to its own descendant");
        return;
    case 7: // an own element appended
        symx_assume(m.t == '[');
        v.as_array().emplace_back(d);
        m.el.push_back(was);
        same(v, m, "appending an array's own element");
        return;
    case 8:
        symx_assume(m.t == '[');
        v.as_array().push_back(std::move(d));
        *q = M('n');
        m.el.push_back(was);
        same(v, m, "appending an array's own element by moving");
        return;
    case 9: // an own member under another key, and over another one
    case 10:
        symx_assume(m.t == '{');
        if (way == 9) v["new"] = d;
        else v.as_object().emplace("new", d);
        m.slot("new") = was;
        same(v, m, "adding an object's own member");
        return;
    case 11: // over the child that holds it
        symx_assume((m.t == '{' && m.mem.size()) || (m.t == '[' && m.el.size()));
        if (m.t == '{') {
            std::string k = m.mem[0].key;
            v[k] = d;
            m.slot(k) = was;
        }
        else {
            v[0] = d;
            m.el[0] = was;
        }
        same(v, m, "assigning a child from a descendant");
        return;
    case 12:
        symx_assume(m.t == '{' && m.mem.size());
        {
            std::string k = m.mem[0].key;
            v.as_object().insert(k, std::as_const(d));
            m.slot(k) = was;
        }
        same(v, m, "inserting over a child from a descendant");
        return;
    case 13:
        d = json::array { v, v };
        {
            M two('[');
            two.el.push_back(all);
            two.el.push_back(all);
            *q = two;
        }
        same(v, m, "assigning copies of the value to its descendant");
        return;
    default:
        if (m.t == '[') {
            json::array& a = v.as_array();
            a = static_cast<const json::array&>(a);
            same(v, all, "self-assignment changed the array");
            a = static_cast<json::array&&>(a);
        }
        else {
            symx_assume(m.t == '{');
            json::object& a = v.as_object();
            a = static_cast<const json::object&>(a);
            same(v, all, "self-assignment changed the object");
            a = static_cast<json::object&&>(a);
        }
        same(v, all, "self-move changed the container");
    }
}
extern "C" void copies() { leakFree(copying); }
extern "C" void moves() { leakFree(moving); }
extern "C" void overlaps() { leakFree(overlap); }
