// What const members, parsing and serialising write to: nothing that existed before the call.
#include "types.hpp"
#include <sstream>
using V = json::value;
using A = json::array;
using O = json::object;

struct Ctx {
    const V* v;
    const V* w;
    const std::string* key;
    uint64_t pos;
    unsigned op;
};
// FNV over what was seen, so that nothing is optimised away and both threads can be compared
struct Seen {
    uint64_t h = 14695981039346656037ull;
    template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr> void add(T x) { h = (h << 5) + (uint64_t)x; }
    template <typename T, std::enable_if_t<std::is_same_v<T, std::string_view> || std::is_same_v<T, std::string>>* = nullptr> void add(const T& s)
    {
        add(s.size());
        for (char c : s) add((u8)c);
    }
    template <typename T, std::enable_if_t<std::is_same_v<T, V>>* = nullptr> void add(const T& v)
    {
        add((uint64_t)v.type());
        if (v.is_string()) add(v.as_string_view());
        else if (v.is_array()) {
            for (const V& e : v.as_array()) add(e);
        }
        else if (v.is_object()) {
            for (const auto& [k, e] : v.as_object()) { add(std::string_view(k)); add(e); }
        }
    }
};
template <typename F> static void tried(Seen& s, F f)
{
    try {
        f();
        s.add(1);
    }
    catch (const std::exception& e) {
        s.add(std::string_view(e.what()));
    }
}
template <typename T> static void reads(Seen& s, const V& v)
{
    s.add(v.is<T>());
    tried(s, [&] { T t = v.as<T>(); (void)t; });
    tried(s, [&] { T t = static_cast<T>(v); (void)t; });
    if constexpr (!std::is_same_v<T, V>) s.add(v.all<T>());
}
static const unsigned OPS = 34;
__attribute__((noinline)) static uint64_t work(const void* p)
{
    const Ctx& x = *(const Ctx*)p;
    const V& v = *x.v;
    const V& w = *x.w;
    const std::string& key = *x.key;
    size_t pos = (size_t)x.pos;
    Seen s;
    switch (x.op) {
    case 0:
        s.add(v.valid() + 2 * v.empty() + 4 * v.is_null() + 8 * v.is_array() + 16 * v.is_object() + 32 * v.is_string() + 64 * v.is_number() + 128 * v.is_boolean());
        s.add(v.type_name());
        s.add(v.value_info());
        break;
    case 1: s.add(v.to_string()); break;
    case 2: s.add(v.format(2)); break;
    case 3: s.add(v.dumps()); s.add(v.dumps(1)); break;
    case 4: tried(s, [&] { s.add(v.as_boolean()); }); tried(s, [&] { s.add(bool(v)); }); break;
    case 5: tried(s, [&] { s.add((uint64_t)v.as_integer()); }); tried(s, [&] { s.add(v.as_unsigned()); }); tried(s, [&] { s.add((uint64_t)v.as_long()); }); break;
    case 6: tried(s, [&] { s.add(v.as_unsigned_long()); }); tried(s, [&] { s.add((uint64_t)v.as_long_long()); }); tried(s, [&] { s.add(v.as_unsigned_long_long()); }); break;
    case 7: tried(s, [&] { s.add((uint64_t)(v.as_float() != 0)); }); tried(s, [&] { s.add((uint64_t)(v.as_double() != 0)); }); break;
    case 8: tried(s, [&] { s.add(v.as_string()); }); tried(s, [&] { s.add(v.as_string_view()); }); break;
    case 9: tried(s, [&] { s.add(v.at(pos)); }); s.add(v.contains(pos)); s.add(v.find_value(pos) != nullptr); break;
    case 10: tried(s, [&] { s.add(v.at(key)); }); s.add(v.contains(key)); s.add(v.find_value(key) != nullptr); s.add(v.exists(key)); break;
    case 11: s.add(v.get(key, "none")); s.add((uint64_t)v.get(key, 7)); s.add(v.get(pos, "none")); s.add((uint64_t)v.get(0, key, 7)); break;
    case 12: { auto f = v.find<V>(key); if (f) s.add(*f); auto g = v.find<std::string>(pos); if (g) s.add(std::string_view(*g)); break; }
    case 13: tried(s, [&] {
        const A& a = v.as_array();
        for (auto& e : a) s.add(e);
        for (auto i = a.crbegin(); i != a.crend(); ++i) s.add(i->is_null());
        s.add(a.size() + a.empty() + a.contains(pos));
        s.add(a.to_string()); s.add(a.format());
        s.add(a.get(pos, "none"));
    }); break;
    case 14: tried(s, [&] {
        const O& o = v.as_object();
        for (auto& [k, e] : o) { s.add(std::string_view(k)); s.add(e); }
        s.add(o.size() + o.empty() + o.contains(key));
        s.add(o.to_string()); s.add(o.format());
        s.add(o.get(key, "none"));
        s.add(o.at(key));
    }); break;
    case 15: s.add(v == w); s.add(v != w); s.add(v == v); s.add(w == v); break;
    case 16: { V c = v; s.add(c); break; }
    case 17: { V c; c = v; V d = std::move(c); d = w; s.add(d); break; }
    // a copy is one's own
    case 18: { V c = v; tried(s, [&] { c.as_array().emplace_back(1); }); tried(s, [&] { if (!c.as_array().empty()) c.as_array()[0] = 2; }); s.add(c); break; }
    case 19: { V c = v; tried(s, [&] { c[key] = 1; }); tried(s, [&] { for (auto& [k, e] : c.as_object()) e = nullptr; }); s.add(c); break; }
    case 20: { V c = v; tried(s, [&] { c.erase(key); }); tried(s, [&] { c.erase(size_t(0)); }); tried(s, [&] { c.clear(); }); s.add(c); break; }
    case 21: tried(s, [&] { s.add(V(v | O { { key, 1 } })); }); tried(s, [&] { s.add(V(v + A { key })); }); break;
    case 22: tried(s, [&] { s.add(V(v | w.as_object())); }); tried(s, [&] { s.add(V(v + w.as_array())); }); break;
    case 23: { V a(A { v, w, v }); V o(O { { key, v }, { "w", w } }); s.add(a); s.add(o); break; }
    case 24: reads<std::vector<V>>(s, v); reads<std::vector<std::string>>(s, v); break;
    case 25: reads<std::map<std::string, int>>(s, v); reads<std::map<std::string, V>>(s, v); break;
    case 26: reads<std::pair<std::string, V>>(s, v); reads<std::tuple<int, V, std::string>>(s, v); break;
    case 27: reads<std::optional<int>>(s, v); reads<std::variant<int, std::string, std::vector<int>>>(s, v); break;
    case 28: reads<Col>(s, v); break;
    case 29: reads<Pt>(s, v); break;
    case 30: reads<std::set<std::string>>(s, v); reads<std::array<V, 1>>(s, v); break;
    case 31: { std::vector<std::map<std::string, std::string>> c(1); c[0][key] = key; V m = c; s.add(m); s.add(m.to_string()); V e = Col::dark_blue; s.add(e); V t = std::make_tuple(1, key, v); s.add(t); break; }
    case 32: { Pt q; q.x = (int)(pos & 63); q.tag = key; V j = q; s.add(j); Pt r = j.as<Pt>(); s.add((uint64_t)r.x); s.add(Pt {}.check_json(v)); break; }
    default: { auto c = json::parse(v.to_string()); s.add(!!c); if (c) s.add(*c); break; }
    }
    return s.h;
}
// params: first and last operation, length of the key, template
extern "C" void one()
{
    M m = tmpl(3);
    unsigned lo = (unsigned)symx_param(0), hi = (unsigned)symx_param(1);
    Ctx x;
    x.op = lo + symx_pick(hi - lo + 1, "operation");
    std::string key((size_t)symx_param(2), 0);
    symx_symbolic(key.data(), key.size(), "key");
    uint64_t pos = 0;
    symx_symbolic(&pos, 8, "pos");
    const V v = mk(m), w = mk(m, 1);
    x.v = &v; x.w = &w; x.key = &key; x.pos = pos;
    symx_concurrent(work, &x);
    same(v, m, "the shared value changed");
    same(w, m, "the shared value changed");
    symx_reach("end");
}
struct Text { const u8* p; size_t n; unsigned op; };
__attribute__((noinline)) static uint64_t parses(const void* p)
{
    const Text& t = *(const Text*)p;
    Seen s;
    std::string_view sv((const char*)t.p, t.n);
    switch (t.op) {
    case 0: { auto v = json::parse(sv); s.add(!!v); if (v) { s.add(*v); s.add(v->to_string()); s.add(v->format()); V c = *v; c = nullptr; } break; }
    case 1: { auto v = json::parsec(sv); s.add(!!v); if (v) { s.add(*v); s.add(v->to_string()); } break; }
    default: { std::vector<u8> c(t.p, t.p + t.n); auto v = json::parse(c); s.add(!!v); if (v) s.add(*v); break; }
    }
    return s.h;
}
// params: operation, document
extern "C" void text()
{
    u8* buf;
    int n = buildDoc(buf, 2, (int)symx_param(1));
    Exact e(buf, (size_t)n);
    Text t { (const u8*)e.p, (size_t)n, (unsigned)symx_param(0) };
    symx_concurrent(parses, &t);
    symx_reach("end");
}
#ifdef HX_STREAM
static uint64_t streams(const void* p)
{
    const Ctx& x = *(const Ctx*)p;
    Seen s;
    std::ostringstream o;
    o << *x.v;
    s.add(o.str());
    std::istringstream i(o.str());
    auto v = json::parse(static_cast<std::istream&>(i), false);
    s.add(!!v);
    if (v) s.add(*v);
    return s.h;
}
// params: template
extern "C" void stream()
{
    M m = tmpl(0);
    const V v = mk(m);
    std::string key;
    Ctx x { &v, &v, &key, 0, 0 };
    symx_concurrent(streams, &x);
    same(v, m, "the shared value changed");
    symx_reach("end");
}
#endif
