// Sequences of operations on an array, against a plain sequence of trees.
#include "hv.hpp"
using V = json::value;
using A = json::array;

static size_t anyPos(const char* name)
{
    uint64_t p;
    symx_symbolic(&p, 8, name);
    return (size_t)p;
}
// in large arrays only positions near either end and near 256
static size_t anyPos(const char* name, size_t n)
{
    size_t p = anyPos(name);
    if (n > 100) symx_assume((p < 2) | (p + 3 >= n) | (p - 254 < 4));
    return p;
}
static unsigned pickPos(size_t n, const char* name)
{
    if (n <= 100) return symx_pick((unsigned)n, name);
    unsigned k = symx_pick(8, name);
    k = k < 2 ? k : k < 5 ? 252 + k : (unsigned)n - 8 + k;
    symx_assume(k < n);
    return k;
}
template <typename F> static bool throws(F&& f)
{
    try { f(); }
    catch (const std::exception&) { return true; }
    return false;
}
// everything that can be asked about a (held by v)
static void look(V& v, const Ms& m)
{
    A& a = v.as_array();
    const A& c = a;
    const V& cv = v;
    M whole('[');
    whole.el = m;
    same(cv, whole, "the array's content differs");
    size_t n = m.size(), k;
    symx_check(cv.empty() == !n, "empty() differs");
    symx_check((size_t)(a.end() - a.begin()) == n && (size_t)(c.end() - c.begin()) == n && (size_t)(c.cend() - c.cbegin()) == n, "iterators span another number of elements");
    k = 0;
    for (auto i = a.begin(); i != a.end(); ++i) symx_check(&*i == &a[k++], "begin() iterates over something else");
    k = 0;
    for (auto i = c.cbegin(); i != c.cend(); ++i) symx_check(&*i == &c[k++], "cbegin() iterates over something else");
    k = n;
    for (auto i = a.rbegin(); i != a.rend(); ++i) symx_check(k && &*i == &a[--k], "rbegin() iterates over something else");
    symx_check(!k, "rbegin() misses elements");
    k = n;
    for (auto i = c.rbegin(); i != c.rend(); ++i) symx_check(k && &*i == &c[--k], "const rbegin() iterates over something else");
    symx_check(!k, "const rbegin() misses elements");
    k = n;
    for (auto i = c.crbegin(); i != c.crend(); ++i) symx_check(k && &*i == &c[--k], "crbegin() iterates over something else");
    symx_check(!k, "crbegin() misses elements");
    for (k = 0; k < n; k++) {
        same(c[k], m[k], "operator[] gives another element");
        symx_check(&c[k] == &cv[k] && &c[k] == &v[k], "operator[] of the value gives another element");
    }
    size_t p = anyPos("position", n);
    bool in = p < n;
    symx_check(c.contains(p) == in && cv.contains(p) == in, "contains() differs");
    symx_check(c.exists(p) == in && cv.exists(p) == in, "exists() differs");
    const V *f = c.find_value(p), *g = cv.find_value(p);
    symx_check(f == g && (f != nullptr) == in, "find_value() differs");
    auto o = c.find<V>(p);
    auto o2 = cv.find<V>(p);
    symx_check(o.has_value() == in && o2.has_value() == in, "find() differs");
    V got = c.get(p, V("default")), got2 = cv.get(p, V("default"));
    if (in) {
        p = symx_conc(p);
        symx_check(f == &c[p], "find_value() gives another element");
        same(*o, m[p], "find() gives another element");
        same(*o2, m[p], "find() of the value gives another element");
        same(got, m[p], "get() gives another element");
        same(got2, m[p], "get() of the value gives another element");
        symx_check(&c.at(p) == &c[p] && &cv.at(p) == &c[p], "at() gives another element");
        symx_reach("inside");
    }
    else {
        same(got, str("default"), "get() past the end gives something");
        same(got2, str("default"), "get() of the value past the end gives something");
        symx_check(throws([&] { (void)c.at(p); }), "at() past the end does not throw");
        symx_check(throws([&] { (void)cv.at(p); }), "at() of the value past the end does not throw");
        symx_reach("outside");
    }
    same(cv, whole, "looking changed the array");
}
static void step(V& v, Ms& m, int k)
{
    A& a = v.as_array();
    M x = num(100 + k);
    switch (symx_pick(20, "operation")) {
    case 0: {
        V& r = a.emplace_back(100 + k);
        m.push_back(x);
        symx_check(&r == &a[m.size() - 1], "emplace_back returns another element");
        break;
    }
    case 1: a.push_back(mk(x)); m.push_back(x); break;
    case 2: {
        V e = mk(x);
        a.push_back(e);
        same(e, x, "push_back changed the pushed value");
        m.push_back(x);
        break;
    }
    case 3: v.emplace(100 + k); m.push_back(x); break;
    case 4:
    case 5: {
        bool viaValue = k & 1;
        size_t p = anyPos("erased", m.size());
        bool in = p < m.size();
        if (in) p = symx_conc(p);
        bool r = viaValue ? v.erase(p) : a.erase(p);
        symx_check(r == in, "erase() tells otherwise");
        if (in) m.erase(m.begin() + (long)p);
        break;
    }
    case 6: {
        unsigned p = pickPos(m.size() + 1, "erased iterator");
        bool r = a.erase(a.begin() + p);
        symx_check(r == (p < m.size()), "erase(iterator) tells otherwise");
        if (p < m.size()) m.erase(m.begin() + p);
        break;
    }
    case 7: a.clear(); m.clear(); break;
    case 8: {
        symx_assume(m.size());
        unsigned p = pickPos(m.size(), "assigned");
        a[p] = mk(x);
        m[p] = x;
        break;
    }
    case 9: {
        symx_assume(m.size());
        unsigned p = pickPos(m.size(), "assigned");
        v[p] = 100 + k;
        m[p] = x;
        break;
    }
    case 10: { // a copy, and the original goes on
        A b(a);
        a.emplace_back(nullptr);
        a[0] = true;
        a = b;
        break;
    }
    case 11: {
        A b;
        b.emplace_back("gone");
        b = a;
        b.clear();
        b.emplace_back(1);
        break;
    }
    case 12: {
        A b(std::move(a));
        a = std::move(b);
        break;
    }
    case 13: a = A { 100 + k, "s", nullptr }; m = Ms { x, str("s"), M('n') }; break;
    case 14: {
        unsigned d = 0;
        for (V& e : a) {
            e = V(std::to_string(d++) + "x");
        }
        for (unsigned j = 0; j < m.size(); j++) m[j] = str(std::to_string(j) + "x");
        break;
    }
    case 15: {
        int j = 0;
        for (auto i = a.rbegin(); i != a.rend(); ++i) *i = 1000 + j++;
        j = 0;
        for (size_t q = m.size(); q--;) m[q] = num(1000 + j++);
        break;
    }
    case 16: a = A(std::vector<int> { 4, 5 }); m = Ms { num(4), num(5) }; break;
    case 17: a = A(size_t(2)); m = Ms { M(), M() }; break;
    case 18: { // elements change places
        symx_assume(m.size() > 1);
        unsigned p = pickPos(m.size(), "swapped");
        std::swap(a[0], a[p]);
        M t = m[0];
        m[0] = m[p];
        m[p] = t;
        break;
    }
    default: v.clear(); m.clear(); same(v, M('n'), "clear() left something"); v = A(); break;
    }
}
// params: steps, initial size
extern "C" void ops()
{
    uint64_t before = symx_heap_live();
    {
        Ms m;
        V v = A();
        for (int i = 0; i < (int)symx_param(1); i++) {
            v.as_array().push_back(i % 3 == 1 ? V("a string of more than fifteen bytes") : V(i));
            m.push_back(i % 3 == 1 ? str("a string of more than fifteen bytes") : num(i));
        }
        for (int k = 0; k < (int)symx_param(0); k++) step(v, m, k);
        look(v, m);
    }
    symx_check(symx_heap_live() == before, "memory is leaked");
    symx_reach("end");
}
