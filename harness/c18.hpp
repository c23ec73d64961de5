// Enums by name and by number. Every enum is declared once more as a table of its names and values.
#include "types.hpp"
using V = json::value;

struct Row { const char* name; long long v; };
#define HX_ROW(name, val) { #name, (long long)(val) },
#define HX_ENUMERATOR(name, val) name = val,
#define E_SIGNED(X) X(lowest, -128) X(low1, -127) X(minus, -1) X(zero, 0) X(One, 1) X(two_B, 2) X(_3, 3) X(highest, 128) X(high1, 127) X(beyond, 129) X(below, -129) X(far, 1000) X(farther, 0x7fffffff) X(farthest, -0x7fffffff - 1)
enum class Signed { E_SIGNED(HX_ENUMERATOR) };
#define E_CASE(X) X(red, 10) X(RED, 20) X(Red, 5) X(rEd_, 30) X(green, 7)
enum class Case { E_CASE(HX_ENUMERATOR) };
#define E_UNS(X) X(zero, 0) X(top, 128) X(out, 129) X(wrap, 0xffffff80u) X(last, 0xffffffffu)
enum class Uns : unsigned { E_UNS(HX_ENUMERATOR) };
#define E_LL(X) X(one, 1) X(minus, -1) X(lowest, -128) X(low_out, -129) X(big, 0x100000001LL) X(wide, 0xffffffffLL) X(min, (-0x7fffffffffffffffLL - 1))
namespace deep::er {
struct Outer {
    enum LL : long long { E_LL(HX_ENUMERATOR) };
};
}
#define E_ULL(X) X(one, 1) X(huge, 0x8000000000000000ull) X(wrap, 0xffffffffffffff80ull) X(all, 0xffffffffffffffffull) X(hi, 128)
enum class Ull : unsigned long long { E_ULL(HX_ENUMERATOR) };
#define E_FROM(X) X(Idle, 100) X(Running, 101) X(Stopped, 103)
enum class From { E_FROM(HX_ENUMERATOR) MEOJSON_ENUM_RANGE(Idle, Stopped) };
#define E_NEG(X) X(first, -300) X(middle, -200) X(end, -129)
enum class Neg { E_NEG(HX_ENUMERATOR) out = -301, past = -128, MEOJSON_ENUM_RANGE(first, end) };
#define E_WIDE(X) X(a, 0) X(b, 255) X(c, 256) X(d, 599) X(e, 600)
enum Wide : unsigned { E_WIDE(HX_ENUMERATOR) f = 601, MEOJSON_ENUM_RANGE(a, e) };
namespace {
#define E_BOOL(X) X(no, 0) X(yes, 1)
enum class Bool : bool { E_BOOL(HX_ENUMERATOR) };
}
#define E_MID(X) X(deep_down, -3) X(just_below, -1) X(level, 0)
enum class Mid { E_MID(HX_ENUMERATOR) over = 1, under = -4, MEOJSON_ENUM_RANGE(deep_down, level) };
#define E_ONLY(X) X(only, 0)
enum class Only : unsigned { E_ONLY(HX_ENUMERATOR) more = 1, most = 0xffffffffu, MEOJSON_ENUM_RANGE(only, only) };
#define E_ACROSS(X) X(a_very_long_enumerator_name_of_more_than_thirty_two_characters, -2) X(B, 0) X(b2, 3)
enum class Across : long { E_ACROSS(HX_ENUMERATOR) c = 4, d = 0x100000000L, e = -3, MEOJSON_ENUM_RANGE(-2, 3) };
// these can be written, but not read back
#define E_S8(X) X(lowest, -128) X(minus, -1) X(zero, 0) X(highest, 127)
enum class S8 : signed char { E_S8(HX_ENUMERATOR) };
#define E_U8(X) X(zero, 0) X(mid, 127) X(top, 128) X(out, 129) X(all, 255)
enum class U8 : unsigned char { E_U8(HX_ENUMERATOR) };
#define E_S16(X) X(below, -129) X(lowest, -128) X(zero, 0) X(highest, 128) X(above, 129) X(far, 32767)
enum class S16 : short { E_S16(HX_ENUMERATOR) };
#define E_CHR(X) X(letter, 'a') X(digit, '0') X(none, 0)
enum Chr : char { E_CHR(HX_ENUMERATOR) };
template <typename E> struct Info;
#define HX_INFO(E, LIST, LO, HI) template <> struct Info<E> { static constexpr Row rows[] = { LIST(HX_ROW) }; static constexpr long long lo = LO, hi = HI; };
HX_INFO(Signed, E_SIGNED, -128, 128)
HX_INFO(Case, E_CASE, -128, 128)
HX_INFO(Uns, E_UNS, 0, 128)
HX_INFO(deep::er::Outer::LL, E_LL, -128, 128)
HX_INFO(Ull, E_ULL, 0, 128)
HX_INFO(From, E_FROM, 100, 103)
HX_INFO(Neg, E_NEG, -300, -129)
HX_INFO(Wide, E_WIDE, 0, 600)
HX_INFO(Bool, E_BOOL, 0, 1)
HX_INFO(Mid, E_MID, -3, 0)
HX_INFO(Only, E_ONLY, 0, 0)
HX_INFO(Across, E_ACROSS, -2, 3)
HX_INFO(S8, E_S8, -128, 127)
HX_INFO(U8, E_U8, 0, 128)
HX_INFO(S16, E_S16, -128, 128)
HX_INFO(Chr, E_CHR, 0, 127)
template <typename E> static constexpr bool readable = sizeof(E) >= 4 || std::is_same_v<E, Bool>;
template <typename E> static const char* nameOf(E e)
{
    long long x = (long long)e;
    for (auto& r : Info<E>::rows)
        if (r.v == x && x >= Info<E>::lo && x <= Info<E>::hi) return r.name;
    return nullptr;
}
template <typename F> static void withEnum(F f)
{
    switch (symx_param(0)) {
    case 0: return f(Signed());
    case 1: return f(Case());
    case 2: return f(Uns());
    case 3: return f(deep::er::Outer::LL());
    case 4: return f(Ull());
    case 5: return f(From());
    case 6: return f(Neg());
    case 7: return f(Wide());
    case 8: return f(Bool());
    case 9: return f(Mid());
    case 10: return f(Only());
    case 11: return f(Across());
    case 12: return f(S8());
    case 13: return f(U8());
    case 14: return f(S16());
#ifndef MEOJSON_ENUM_AS_NUMBER // no value is made of a char
    case 15: return f(Chr());
#endif
    default: symx_assume(false);
    }
}
// every value of the underlying type. params: enum
static void anyValue()
{
    withEnum([](auto zero) {
        typedef decltype(zero) E;
        std::underlying_type_t<E> x {};
        if constexpr (std::is_same_v<E, Bool>) x = symx_pick(2, "value") != 0;
        else symx_symbolic(&x, sizeof x, "value");
        E e = static_cast<E>(x);
#ifdef MEOJSON_ENUM_AS_NUMBER
        const V v = e;
        same(v, toM(V(x)), "an enum is not written as its number");
        symx_check(v == V(x), "an enum is not written as its number");
        symx_reach("named");
        symx_reach("nameless");
#else
        const char* name = nameOf(e);
        symx_observe(name != nullptr);
        symx_reach(name ? "named" : "nameless");
        bool thrown = false;
        try {
            const V v = e;
            symx_check(name, "a value without a name is converted to one");
            same(v, str(name), "another name");
            if constexpr (readable<E>) symx_check(v.is<E>() && v.as<E>() == e && static_cast<E>(v) == e && V(v).as<E>() == e, "the name converts to another value");
        }
        catch (const json::exception&) {
            thrown = true;
        }
        symx_check(thrown == !name, "a value with a name is refused");
        // as an element and a member
        if (name) {
            std::vector<E> c { e, e };
            const V w = c;
            symx_check(w.is_array() && w.as_array().size() == 2, "another array");
            same(w.as_array()[1], str(name), "another name in an array");
            if constexpr (readable<E>) symx_check(w.as<std::vector<E>>() == c, "the array converts to another");
            json::object o { { "k", e } };
            same(o.at("k"), str(name), "another name in an object");
            if constexpr (readable<E>) symx_check(V(o).get("k", static_cast<E>(0)) == e, "get with a default gives another value");
        }
#endif
    });
    symx_reach("end");
}
static bool caseless(const std::string& s, const char* name)
{
    size_t n = strlen(name);
    if (s.size() != n) return false;
    for (size_t i = 0; i < n; i++) {
        u8 a = (u8)s[i], b = (u8)name[i];
        if ((u8)(a - 'A') < 26) a += 32;
        if ((u8)(b - 'A') < 26) b += 32;
        if (a != b) return false;
    }
    return true;
}
// every text, number and other value. params: enum, template
static void anyText()
{
    M m = tmpl(1);
    const V v = mk(m);
    withEnum([&](auto zero) {
        typedef decltype(zero) E;
        typedef std::underlying_type_t<E> U;
        typedef Info<E> I;
        if constexpr (readable<E>) {
        bool known = false, exact = false;
        if (m.t == '"') {
            for (auto& r : I::rows) {
                // names of enumerators outside the range are not settled
                bool in = nameOf(static_cast<E>((U)r.v)) != nullptr;
                if (!in) symx_assume(!caseless(m.s, r.name));
                else if (caseless(m.s, r.name)) {
                    known = true;
                    exact |= sameText(m.s, r.name);
                }
            }
            symx_assume(!caseless(m.s, "_MEOJSON_ENUM_MIN") && !caseless(m.s, "_MEOJSON_ENUM_MAX"));
        }
        bool want = m.t == '"' ? known : R<U>::fits(m);
        symx_observe(want);
        symx_reach(want ? "converts" : "refused");
        symx_check(v.is<E>() == want, "is<E>() differs");
        bool got = false;
        try {
            E e = v.as<E>();
            got = true;
            if (m.t == '"') {
                const char* name = nameOf(e);
                symx_check(name && (exact ? sameText(m.s, name) : caseless(m.s, name)), "another enumerator");
            }
            else symx_check(R<U>::eq(static_cast<U>(e), m), "a number converts to another value");
            symx_check(static_cast<E>(v) == e && V(v).as<E>() == e && json::array { v }.get(size_t(0), zero) == e && *json::object { { "k", v } }.template find<E>("k") == e, "conversions differ");
        }
        catch (const json::exception&) {
        }
        symx_check(got == want, want ? "an enumerator is refused" : "what is no enumerator is converted");
        same(v, m, "reading changed the value");
        }
    });
    symx_reach("end");
}
