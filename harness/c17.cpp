// Reflected structs: which members are needed, read and written.
#include "types.hpp"
using V = json::value;

// every struct lists its fields a second time in each(): key, optional, field
struct Plain {
    int a = 1;
    std::string b = "p";
    bool c = false;
    MEO_JSONIZATION(a, b, c)
    template <typename F> void each(F f) { f("a", false, a); f("b", false, b); f("c", false, c); }
    template <typename F> void each(F f) const { f("a", false, a); f("b", false, b); f("c", false, c); }
    bool operator==(const Plain& o) const { return a == o.a && sameText(b, o.b) && c == o.c; }
};
struct Keys {
    int a = 7;
    std::string b = "prev";
    bool c = true;
    std::vector<int> d { 1, 2 };
    std::optional<int> e = 5;
    MEO_JSONIZATION(MEO_OPT a, MEO_KEY("bee") b, MEO_OPT MEO_KEY("") c, MEO_KEY("d d") MEO_OPT d, e)
#define KEYS f("a", true, a); f("bee", false, b); f("", true, c); f("d d", true, d); f("e", false, e);
    template <typename F> void each(F f) { KEYS }
    template <typename F> void each(F f) const { KEYS }
    bool operator==(const Keys& o) const { return a == o.a && sameText(b, o.b) && c == o.c && d == o.d && e == o.e; }
};
struct Crossed {
    std::string a = "A", b = "B", result = "R", in = "I", error_key = "E", key = "K", state = "S", var = "V", rest = "Z";
    MEO_JSONIZATION(MEO_KEY("b") a, MEO_OPT MEO_KEY("a") b, MEO_OPT result, MEO_OPT in, MEO_OPT error_key, MEO_OPT key, MEO_OPT state, MEO_OPT var, MEO_OPT rest)
#define CROSSED f("b", false, a); f("a", true, b); f("result", true, result); f("in", true, in); f("error_key", true, error_key); f("key", true, key); f("state", true, state); f("var", true, var); f("rest", true, rest);
    template <typename F> void each(F f) { CROSSED }
    template <typename F> void each(F f) const { CROSSED }
    bool operator==(const Crossed& o) const
    {
        return sameText(a, o.a) && sameText(b, o.b) && sameText(result, o.result) && sameText(in, o.in) && sameText(error_key, o.error_key) && sameText(key, o.key) && sameText(state, o.state) && sameText(var, o.var)
            && sameText(rest, o.rest);
    }
};
struct In {
    int x = 3;
    Col y = Col::green;
    MEO_JSONIZATION(MEO_OPT x, y)
    template <typename F> void each(F f) { f("x", true, x); f("y", false, y); }
    template <typename F> void each(F f) const { f("x", true, x); f("y", false, y); }
    bool operator==(const In& o) const { return x == o.x && y == o.y; }
};
struct Nest {
    In in;
    std::vector<In> l { In() };
    std::map<std::string, In> m;
    std::optional<In> o;
    V any = 9;
    MEO_JSONIZATION(in, MEO_OPT l, MEO_OPT m, MEO_OPT o, MEO_OPT any)
#define NEST f("in", false, in); f("l", true, l); f("m", true, m); f("o", true, o); f("any", true, any);
    template <typename F> void each(F f) { NEST }
    template <typename F> void each(F f) const { NEST }
    bool operator==(const Nest& x) const { return in == x.in && l == x.l && m == x.m && o == x.o && any == x.any; }
};
struct Free { // nothing is required
    long long n = -2;
    std::variant<bool, std::string> v = true;
    std::pair<int, std::string> p { 1, "q" };
    std::array<int, 2> z { { 4, 5 } };
    json::object ob;
    json::array ar;
    MEO_JSONIZATION(MEO_OPT n, MEO_OPT v, MEO_OPT p, MEO_OPT z, MEO_OPT MEO_KEY("o") ob, MEO_OPT MEO_KEY("r") ar)
#define FREE f("n", true, n); f("v", true, v); f("p", true, p); f("z", true, z); f("o", true, ob); f("r", true, ar);
    template <typename F> void each(F f) { FREE }
    template <typename F> void each(F f) const { FREE }
    bool operator==(const Free& x) const { return n == x.n && v == x.v && p == x.p && z == x.z && ob == x.ob && ar == x.ar; }
};
class Hidden { // the three macros on their own, in a class
public:
    MEO_TOJSON(one_, MEO_KEY("2") two_)
    MEO_CHECKJSON(one_, MEO_KEY("2") two_)
    MEO_FROMJSON(one_, MEO_KEY("2") two_)
    template <typename F> void each(F f) { f("one_", false, one_); f("2", false, two_); }
    template <typename F> void each(F f) const { f("one_", false, one_); f("2", false, two_); }
    bool operator==(const Hidden& o) const { return one_ == o.one_ && sameText(two_, o.two_); }

private:
    bool one_ = true;
    std::string two_ = "2";
};
struct Num {
    int a = 0;
    unsigned b = 0;
    long long c = 0;
    unsigned long long d = 0;
    MEO_JSONIZATION(a, MEO_KEY("bb") b, MEO_OPT c, MEO_OPT MEO_KEY("dd") d)
    template <typename F> void each(F f) { f("a", false, a); f("bb", false, b); f("c", true, c); f("dd", true, d); }
    template <typename F> void each(F f) const { f("a", false, a); f("bb", false, b); f("c", true, c); f("dd", true, d); }
    bool operator==(const Num& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
};
// how R judges a reflected struct
template <typename T> struct RR : Rnone {
    static bool fits(const M& m)
    {
        bool ok = true;
        T().each([&](const char* key, bool opt, auto& field) {
            const M* x = m.t == '{' ? m.find(key) : nullptr;
            ok &= x ? R<std::decay_t<decltype(field)>>::fits(*x) : opt;
        });
        return ok;
    }
    // a default-constructed object that has read m
    static bool eq(const T& v, const M& m)
    {
        bool ok = true;
        T fresh;
        std::vector<const void*> was;
        fresh.each([&](const char*, bool, auto& field) { was.push_back(&field); });
        size_t i = 0;
        v.each([&](const char* key, bool, const auto& field) {
            typedef std::decay_t<decltype(field)> F;
            const M* x = m.t == '{' ? m.find(key) : nullptr;
            ok &= x ? R<F>::eq(field, *x) : field == *static_cast<const F*>(was[i]);
            i++;
        });
        return ok;
    }
};
template <> struct R<In> : RR<In> {};
template <> struct R<Plain> : RR<Plain> {};
template <> struct R<Keys> : RR<Keys> {};
template <> struct R<Crossed> : RR<Crossed> {};
template <> struct R<Nest> : RR<Nest> {};
template <> struct R<Free> : RR<Free> {};
template <> struct R<Hidden> : RR<Hidden> {};
template <> struct R<Num> : RR<Num> {};

template <typename T> static bool blamed(const std::string& ek, const M& m)
{
    bool found = false;
    T().each([&](const char* key, bool opt, auto& field) {
        const M* x = m.t == '{' ? m.find(key) : nullptr;
        if (sameText(ek, key) && !(x ? R<std::decay_t<decltype(field)>>::fits(*x) : opt)) found = true;
    });
    return found;
}
// enumerators without a name are not written
static bool nameless(const Col& c) { return c != Col::red && c != Col::green && c != Col::dark_blue; }
static bool nameless(const In& i) { return nameless(i.y); }
static bool nameless(const Nest& n)
{
    bool r = nameless(n.in) || (n.o && nameless(*n.o));
    for (auto& e : n.l) r |= nameless(e);
    for (auto& e : n.m) r |= nameless(e.second);
    return r;
}
template <typename T> static bool nameless(const T&) { return false; }

template <typename T> static void written(const T& s)
{
    if (nameless(s)) return;
    T copy = s;
    const V v = s.to_json();
    symx_check(s == copy, "to_json changed the struct");
    symx_check(v.is_object(), "to_json gives no object");
    size_t n = 0;
    s.each([&](const char* key, bool, const auto& field) {
        typedef std::decay_t<decltype(field)> F;
        n++;
        const V* x = v.find_value(std::string(key));
        symx_check(x, "a field is not written");
        M m = toM(*x);
        symx_check(R<F>::fits(m) && R<F>::eq(field, m), "a field is written wrongly");
    });
    symx_check(v.as_object().size() == n, "to_json writes more than the fields");
    symx_check(V(s) == v, "the value of a struct is not its to_json");
    T t;
    std::string ek;
    symx_check(s.check_json(v) && T().check_json(v, ek) && v.is<T>() && t.from_json(v) && t == s && v.as<T>() == s, "what to_json gives does not load");
}
template <typename T> static void one(const M& m)
{
    const V v = mk(m);
    bool want = R<T>::fits(m);
    symx_reach(want ? "loads" : "refused");
    symx_observe(want);
    T s, u;
    std::string ek = "?", ek2 = "?";
    const T untouched {};
    symx_check(untouched.check_json(v, ek) == want && untouched.check_json(v) == want, "check_json differs");
    symx_check(untouched == T(), "check_json changed the struct");
    symx_check(s.from_json(v, ek2) == want && u.from_json(v) == want, "from_json differs");
    symx_check(v.is<T>() == want, "is differs");
    same(v, m, "reading changed the value");
    bool thrown = false;
    try {
        T t = v.as<T>();
        symx_check(t == s, "as<T>() loads something else");
    }
    catch (const json::exception&) {
        thrown = true;
    }
    symx_check(thrown == !want, "as<T>() differs");
    if (!want) {
        symx_check(blamed<T>(ek, m), "check_json blames a key that is fine");
        symx_check(blamed<T>(ek2, m), "from_json blames a key that is fine");
        return;
    }
    symx_check(R<T>::eq(s, m) && s == u, "a field is loaded wrongly");
    // an absent optional field keeps what it holds
    if (m.t == '{') {
        T again = s;
        std::string none;
        M less = m;
        again.each([&](const char* key, bool opt, auto&) { if (opt) less.drop(key); });
        symx_check(again.from_json(mk(less), none) && again == s, "an absent optional field loses its value");
    }
    written(s);
}
// params: struct, template
extern "C" void load()
{
    M m = tmpl(1);
    switch (symx_param(0)) {
    case 0: one<Plain>(m); break;
    case 1: one<Keys>(m); break;
    case 2: one<Crossed>(m); break;
    case 3: one<Nest>(m); break;
    case 4: one<Free>(m); break;
    case 5: one<Hidden>(m); break;
    case 6: one<Num>(m); break;
    default: one<In>(m);
    }
    symx_reach("end");
}
// a type whose conversions are written outside it
struct Third {
    int a = 0;
    mutable int copied = 0;
    int moved = 0;
};
namespace json::ext {
template <> class jsonization<Third> {
public:
    json::value to_json(const Third& t) const { t.copied++; return json::object { { "a", t.a } }; }
    json::value move_to_json(Third&& t) const { t.moved++; return json::object { { "a", t.a } }; }
    bool check_json(const json::value& v) const { return v.is_object() && v.contains("a") && v.at("a").is<int>(); }
    bool from_json(const json::value& v, Third& t) const { if (!check_json(v)) return false; t.a = v.at("a").as<int>(); t.copied = 1; return true; }
    bool move_from_json(json::value&& v, Third& t) const { if (!check_json(v)) return false; t.a = v.at("a").as<int>(); t.moved = 1; v = json::value(); return true; }
};
}
template <> struct R<Third> : Rnone {
    static bool fits(const M& m) { const M* x = m.t == '{' ? m.find("a") : nullptr; return x && R<int>::fits(*x); }
    static bool eq(const Third& t, const M& m) { return R<int>::eq(t.a, *m.find("a")); }
};
extern "C" void outside()
{
    M m = tmpl(0);
    const V c = mk(m);
    bool want = R<Third>::fits(m);
    symx_reach(want ? "loads" : "refused");
    symx_check(c.is<Third>() == want, "is differs");
    bool got = false;
    try {
        Third t = c.as<Third>();
        got = true;
        symx_check(want && R<Third>::eq(t, m) && t.copied == 1 && !t.moved, "another conversion is used");
        same(c, m, "as<T>() changed the value");
        V v = t;
        M wrote;
        wrote.t = '{';
        wrote.slot("a") = num(t.a);
        same(v, wrote, "another value is written");
        symx_check(t.copied == 2 && !t.moved, "another conversion is used for an lvalue");
        const Third k = t;
        V w = k, x = std::move(t);
        symx_check(k.copied == 3 && !k.moved && t.moved == 1 && t.copied == 2, "another conversion is used for an rvalue");
        symx_check(w == v && x == v, "another value is written");
    }
    catch (const json::exception&) {
    }
    symx_check(got == want, "as<T>() differs");
    V r = mk(m);
    got = false;
    try {
        Third t = std::move(r).as<Third>();
        got = true;
        symx_check(R<Third>::eq(t, m) && t.moved == 1 && !t.copied && r.is_null(), "another conversion is used for an rvalue");
    }
    catch (const json::exception&) {
        same(r, m, "a refused conversion changed the value");
    }
    symx_check(got == want, "as<T>() of an rvalue differs");
    symx_reach("end");
}
