// Sequences of operations on an object, against an ordered list of members.
#include "hv.hpp"
using V = json::value;
using O = json::object;

template <typename F> static bool throws(F&& f)
{
    try { f(); }
    catch (const std::exception&) { return true; }
    return false;
}
static std::string keys[24];
static int nkeys;
static std::string& pickKey(const char* name) { return keys[symx_pick((unsigned)nkeys, name)]; }

static void look(V& v, const M& m)
{
    O& o = v.as_object();
    const O& c = o;
    const V& cv = v;
    same(cv, m, "the object's content differs");
    symx_check(cv.empty() == m.mem.empty(), "empty() differs");
    size_t k = 0;
    for (auto i = o.begin(); i != o.end(); ++i, k++) {
        symx_check(k < m.mem.size() && sameText(i->first, m.mem[k].key), "begin() iterates over other keys");
        same(i->second, m.mem[k].val, "begin() iterates over other values");
    }
    symx_check(k == m.mem.size(), "begin() misses members");
    k = 0;
    for (auto i = c.cbegin(); i != c.cend(); ++i) symx_check(sameText(i->first, m.mem[k++].key), "cbegin() iterates over other keys");
    symx_check(k == m.mem.size(), "cbegin() misses members");
    const std::string& key = keys[symx_pick((unsigned)nkeys, "key")];
    const M* e = m.find(key);
    bool in = e != nullptr;
    symx_check(c.contains(key) == in && cv.contains(key) == in, "contains() differs");
    symx_check(c.exists(key) == in && cv.exists(key) == in, "exists() differs");
    const V *f = c.find_value(key), *g = cv.find_value(key);
    symx_check(f == g && (f != nullptr) == in, "find_value() differs");
    auto r = c.find<V>(key);
    auto r2 = cv.find<V>(key);
    symx_check(r.has_value() == in && r2.has_value() == in, "find() differs");
    V got = c.get(key, V("default")), got2 = cv.get(key, V("default"));
    if (in) {
        same(*f, *e, "find_value() gives another member");
        same(*r, *e, "find() gives another member");
        same(*r2, *e, "find() of the value gives another member");
        same(got, *e, "get() gives another member");
        same(got2, *e, "get() of the value gives another member");
        symx_check(&c.at(key) == f && &cv.at(key) == f, "at() gives another member");
        symx_check(&o[key] == f && &v[key] == f, "operator[] gives another member");
        symx_reach("present");
    }
    else {
        same(got, str("default"), "get() of an absent key gives something");
        same(got2, str("default"), "get() of an absent key of the value gives something");
        symx_check(throws([&] { (void)c.at(key); }), "at() of an absent key does not throw");
        symx_check(throws([&] { (void)cv.at(key); }), "at() of an absent key of the value does not throw");
        symx_reach("absent");
    }
    same(cv, m, "looking changed the object");
}
static void put(V& v, M& m, int k)
{
    O& o = v.as_object();
    M x = num(100 + k);
    switch (symx_pick(14, "insertion")) {
    case 0: {
        std::string& key = pickKey("to");
        o[key] = mk(x);
        m.slot(key) = x;
        break;
    }
    case 1: {
        std::string& key = pickKey("to");
        std::string t = key;
        o[std::move(t)] = 100 + k;
        m.slot(key) = x;
        break;
    }
    case 2: {
        std::string& key = pickKey("to");
        v[key] = 100 + k;
        m.slot(key) = x;
        break;
    }
    case 3: { // merely naming a member creates it
        std::string& key = pickKey("to");
        std::string t = key;
        bool had = m.find(key);
        V& e = v[std::move(t)];
        if (!had) same(e, M('n'), "operator[] creates something else than null");
        (void)m.slot(key);
        break;
    }
    case 4: {
        std::string& key = pickKey("to");
        bool had = m.find(key);
        auto [it, added] = o.emplace(key, 100 + k);
        symx_check(added == !had, "emplace tells otherwise");
        symx_check(sameText(it->first, key), "emplace returns another member");
        same(it->second, x, "emplace keeps another value");
        m.slot(key) = x;
        break;
    }
    case 5: {
        std::string& key = pickKey("to");
        bool had = m.find(key);
        auto [it, added] = o.insert(key, mk(x));
        symx_check(added == !had, "insert tells otherwise");
        symx_check(sameText(it->first, key), "insert returns another member");
        same(it->second, x, "insert keeps another value");
        m.slot(key) = x;
        break;
    }
    case 6: {
        std::string& key = pickKey("to");
        V e = mk(x);
        (void)o.emplace(std::string(key), e);
        same(e, x, "emplace changed its argument");
        m.slot(key) = x;
        break;
    }
    case 7: {
        std::string& key = pickKey("to");
        (void)v.emplace(key, 100 + k);
        m.slot(key) = x;
        break;
    }
    case 8: { // lists keep the first of equal keys
        std::string &a = pickKey("one"), &b = pickKey("two");
        o = O { { a, 100 + k }, { b, "s" } };
        m.mem.clear();
        m.slot(b) = str("s");
        m.slot(a) = x;
        break;
    }
    case 9: {
        std::string &a = pickKey("one"), &b = pickKey("two");
        std::map<std::string, int> s;
        s[a] = 100 + k;
        s[b] = 200 + k;
        o = O(s);
        m.mem.clear();
        m.slot(a) = x;
        m.slot(b) = num(200 + k);
        break;
    }
    case 10: {
        std::string &a = pickKey("one"), &b = pickKey("two");
        v = V { { a, 100 + k }, { b, "s" } };
        m.mem.clear();
        m.slot(b) = str("s");
        m.slot(a) = x;
        break;
    }
    case 11: {
        std::string& key = pickKey("to");
        O p;
        p[key] = mk(x);
        o |= p;
        m.slot(key) = x;
        break;
    }
    case 12: {
        std::string& key = pickKey("to");
        o = o | O { { key, 100 + k } };
        m.slot(key) = x;
        break;
    }
    default: { // from one member to another
        std::string &a = pickKey("one"), &b = pickKey("two");
        const M* e = m.find(a);
        symx_assume(e);
        M t = *e;
        o[b] = o.at(a);
        m.slot(b) = t;
    }
    }
}
static void step(V& v, M& m, int k)
{
    O& o = v.as_object();
    switch (symx_pick(12, "operation")) {
    case 0: {
        std::string& key = pickKey("erased");
        bool had = m.drop(key);
        symx_check(o.erase(key) == had, "erase() tells otherwise");
        break;
    }
    case 1: {
        std::string& key = pickKey("erased");
        bool had = m.drop(key);
        symx_check(v.erase(key) == had, "erase() of the value tells otherwise");
        break;
    }
    case 2: {
        unsigned n = (unsigned)m.mem.size() + 1, p = symx_pick(n < 100 ? n : 7, "erased iterator"), j = 0;
        if (n >= 100) p = p < 2 ? p : p < 4 ? 253 + p : n - 7 + p;
        symx_assume(p < n);
        auto i = o.begin();
        while (j < p) { ++i; j++; }
        symx_check(o.erase(i) == (p < m.mem.size()), "erase(iterator) tells otherwise");
        if (p < m.mem.size()) m.mem.erase(m.mem.begin() + p);
        break;
    }
    case 3: o.clear(); m.mem.clear(); break;
    case 4: v.clear(); m.mem.clear(); same(v, M('n'), "clear() left something"); v = O(); break;
    case 5: { // a copy, and the original goes on
        O b(o);
        o["zz"] = nullptr;
        o.erase(o.begin());
        o = b;
        break;
    }
    case 6: {
        O b;
        b["gone"] = 1;
        b = o;
        b["more"] = 1;
        b.erase(b.begin());
        break;
    }
    case 7: {
        O b(std::move(o));
        o = std::move(b);
        break;
    }
    case 8: {
        int d = 0;
        for (auto& [key, e] : o) { (void)key; e = 1000 + d++; }
        d = 0;
        for (auto& e : m.mem) e.val = num(1000 + d++);
        break;
    }
    case 9: o = O(); m.mem.clear(); break;
    default: put(v, m, k);
    }
}
static void steps(bool puts)
{
    uint64_t before = symx_heap_live();
    {
        nkeys = (int)symx_param(1);
        for (int i = 0; i < nkeys; i++) {
            int n = (int)symx_param(2 + i);
            char b[8];
            if (n < 8) {
                symx_symbolic(b, (size_t)n, "key");
                keys[i] = std::string(b, (size_t)n);
            }
            else if (n >= 200) {
                symx_symbolic(b, 1, "key");
                keys[i] = std::string((size_t)n - 1, 'k') + b[0];
            }
            else if (n == 100) keys[i] = { (char)('a' + i * 7 % 26), 'x' };
            else keys[i] = std::string("a key of more than fifteen bytes").substr(0, (size_t)n);
        }
        M m('{');
        V v = O();
        for (int i = 0; i < (int)symx_param(2 + nkeys); i++) {
            v.as_object()[keys[i]] = i;
            m.slot(keys[i]) = num(i);
        }
        for (int i = 0; i < (int)symx_param(3 + nkeys); i++) {
            std::string key = "m" + std::to_string(1000 + i);
            v.as_object()[key] = i;
            m.slot(key) = num(i);
        }
        for (int k = 0; k < (int)symx_param(0); k++) puts ? put(v, m, k) : step(v, m, k);
        look(v, m);
        for (auto& k : keys) { std::string().swap(k); }
    }
    symx_check(symx_heap_live() == before, "memory is leaked");
    symx_reach("end");
}
// params: steps, number of keys, their lengths, how many of them are members at first, how many other members there are
extern "C" void ops() { steps(false); }
extern "C" void insertions() { steps(true); }
