// Floating-point numbers kept, serialised, parsed and read back (MEOJSON_KEEP_FLOATING_PRECISION).
// params: type (0 float, 1 double, 2 long double), way
#include "hv.hpp"
#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <variant>
using V = json::value;
typedef unsigned __int128 u128;
template <typename T> static u128 bits(T x)
{
    u128 b = 0;
    memcpy(&b, &x, sizeof(T) == 16 ? 10 : sizeof(T));
    return b;
}
template <typename T> static bool same(T a, T b)
{
    constexpr int w = sizeof(T) == 16 ? 80 : 8 * sizeof(T);
    u128 x = bits(a), y = bits(b);
    return (x == y) | (((x | y) << (129 - w)) == 0);
}
template <typename T> struct Rec {
    T f;
    int n;
    MEO_JSONIZATION(f, n);
};
template <typename T> static void readBack(const V& r, T x, const char* msg)
{
    symx_check(r.is_number(), "a number became something else");
    symx_check(r.is<T>(), "the number read back is refused");
    bool ok = false;
    T y = 0, z = 0;
    try {
        y = r.as<T>();
        z = sizeof(T) == 4 ? (T)r.as_float() : sizeof(T) == 8 ? (T)r.as_double() : (T)r.as_long_double();
        ok = true;
    }
    catch (const std::exception&) {}
    symx_check(ok, "the number cannot be read back");
    symx_check(same(x, y) & same(x, z), msg);
    auto o = r.as<std::optional<T>>();
    symx_check(o && same(x, *o), "the optional number differs");
}
template <typename T> static void trip(T x, int way)
{
    V v;
    const T& cx = x;
    switch (way) {
    case 0: v = json::array { V(x) }; break;
    case 1: v = json::array { x }; break;
    case 2: v = json::object { { "k", cx } }; break;
    case 3: v["k"] = x; break;
    case 4: v = V(std::vector<T> { x, x }); break;
    case 5: v = V(std::map<std::string, T> { { "k", x } }); break;
    case 6: { Rec<T> r { x, 1 }; v = r.to_json(); break; }
    case 7: { json::array a; a.emplace_back(x); a.push_back(cx); v = std::move(a); break; }
    case 8: v = V(std::make_pair(x, 7)); break;
    case 9: v = V(std::vector<std::optional<T>> { x }); break;
    case 10: { json::array a; a += json::array { cx }; v = a; break; }
    case 11: { json::object o; o.emplace("k", x); o.insert("l", cx); v = o; break; }
    default: symx_fail("harness: no such way");
    }
    const V& at = v.is_array() ? std::as_const(v)[0] : v.contains("k") ? v.at("k") : v.at("f");
    readBack(at, x, "the number read back differs");
    std::string s = way % 3 == 0 ? v.to_string() : way % 3 == 1 ? v.format() : v.dumps();
    auto p = json::parse(s);
    symx_check(p.has_value(), "the text does not parse");
    symx_check(*p == v, "the parsed value differs");
    const V& back = v.is_array() ? std::as_const(*p)[0] : v.contains("k") ? p->at("k") : p->at("f");
    readBack(back, x, "the parsed number differs");
    switch (way) {
    case 4: { auto t = p->as<std::vector<T>>(); symx_check(t.size() == 2 && same(t[0], x) && same(t[1], x), "the vector differs"); break; }
    case 5: { auto t = p->as<std::map<std::string, T>>(); symx_check(t.size() == 1 && same(t.at("k"), x), "the map differs"); break; }
    case 6: { Rec<T> t {}; symx_check(t.from_json(*p) && same(t.f, x), "the struct differs"); break; }
    case 8: { auto t = p->as<std::pair<T, int>>(); symx_check(same(t.first, x), "the pair differs"); break; }
    case 9: { auto t = p->as<std::vector<std::optional<T>>>(); symx_check(t.size() == 1 && t[0] && same(*t[0], x), "the optional differs"); break; }
    case 2: symx_check(same(p->get("k", (T)7), x), "get() gives another number"); break;
    case 0: { std::variant<bool, T, std::string> t = back.as<std::variant<bool, T, std::string>>(); symx_check(t.index() == 1 && same(std::get<1>(t), x), "the variant differs"); break; }
    }
    auto q = json::parsec(s);
    symx_check(q && *q == v, "parsec disagrees");
}
template <typename T> static T scan(const char* s)
{
    if constexpr (sizeof(T) == 4) return strtof(s, nullptr);
    else if constexpr (sizeof(T) == 8) return strtod(s, nullptr);
    else return strtold(s, nullptr);
}
template <typename T> static void run()
{
    constexpr int w = sizeof(T) == 16 ? 80 : 8 * sizeof(T);
    u128 b = 0;
    int way = (int)symx_param(1);
    symx_symbolic(&b, w / 8, "number");
    u128 mag = b & (((u128)1 << (w - 1)) - 1);
    symx_assume(mag < bits(std::numeric_limits<T>::infinity()));
    if (w == 80) symx_assume(((mag >> 63) == 0) | ((mag >> 63 & 1) == 1 && (mag >> 64) != 0)); // the integer bit goes with the exponent
    T x = 0;
    memcpy(&x, &b, w / 8);
    trip(x, way);
    symx_reach("end");
    if (symx_is_native()) {
        // the model of printing leaves the digits open: other numbers like this one
        char t[64];
        unsigned long long seed = 88172645463325252ull;
        auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
        int e10 = x != 0 ? (int)std::floor(std::log10(std::fabs((long double)x))) : 0;
        for (int i = 0; i < 1500; i++) {
            T y;
            if (i < 500) { // the same exponent, other digits
                u128 c = b, m = ((u128)1 << (w == 32 ? 23 : w == 64 ? 52 : 63)) - 1;
                c = (c & ~m) | (((u128)rnd() << 20 ^ rnd()) & m);
                if (i % 3 == 0) c |= m & ~(u128)0xff;
                y = 0;
                memcpy(&y, &c, w / 8);
            }
            else if (i < 1200) { // short decimals of about the same size
                std::string d;
                for (int k = 0; k < 1 + i % (std::numeric_limits<T>::max_digits10 + 1); k++) d += (char)('0' + rnd() % 10);
                snprintf(t, sizeof t, "%s%s.%se%d", x < 0 ? "-" : "", i % 2 ? "1" : "9", d.c_str(), e10 + (int)(rnd() % 3) - 1);
                y = scan<T>(t);
            }
            else { // and of any size
                snprintf(t, sizeof t, "%s%llu.%llue%d", x < 0 ? "-" : "", rnd() % 10, rnd() % 1000000007, (int)(rnd() % (unsigned)(std::numeric_limits<T>::max_exponent10 * 2 + 20)) - std::numeric_limits<T>::max_exponent10 - 20);
                y = scan<T>(t);
            }
            if (!std::isfinite(y)) continue;
            trip(y, way);
        }
    }
}
extern "C" void floats()
{
    switch (symx_param(0)) {
    case 0: return run<float>();
    case 1: return run<double>();
    default: return run<long double>();
    }
}
