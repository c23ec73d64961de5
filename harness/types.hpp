// The C++ types values convert to: which reference trees fit, and what the result must hold.
#pragma once
#include "hv.hpp"
#include <array>
#include <deque>
#include <list>
#include <limits>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>

enum class Col { red, green = 5, dark_blue = -7 };
enum Big : unsigned long long { big_one = 1, big_two = 2 };
struct Pt {
    int x = 11;
    std::optional<std::string> tag;
    MEO_JSONIZATION(x, MEO_OPT MEO_KEY("t") tag)
};
static inline int hxCmp(std::string_view a, std::string_view b)
{
    size_t n = a.size() < b.size() ? a.size() : b.size();
    int c = n ? memcmp(a.data(), b.data(), n) : 0;
    return c ? c : a.size() < b.size() ? -1 : a.size() > b.size();
}
static inline bool intText(const std::string& s)
{
    size_t i = s.size() && s[0] == '-';
    if (i == s.size()) return false;
    for (; i < s.size(); i++)
        if ((u8)(s[i] - '0') >= 10) return false;
    return true;
}
// magnitude at most the type's, for texts of at most 40 digits
template <typename T> static bool intFits(const std::string& s)
{
    if (!intText(s)) return false;
    bool neg = s[0] == '-';
    if (neg && !std::is_signed_v<T>) return false;
    unsigned long long lim = (unsigned long long)std::numeric_limits<T>::max() + neg, v = 0;
    for (size_t i = neg; i < s.size(); i++) {
        unsigned d = (u8)(s[i] - '0');
        if (v > (lim - d) / 10) return false;
        v = v * 10 + d;
    }
    return true;
}
template <typename T> static T intOf(const std::string& s)
{
    bool neg = s[0] == '-';
    std::make_unsigned_t<T> v = 0;
    for (size_t i = neg; i < s.size(); i++) v = v * 10 + (u8)(s[i] - '0');
    return (T)(neg ? 0 - v : v);
}
static inline bool textIs(const std::string& s, const char* low)
{
    size_t n = strlen(low);
    if (s.size() != n) return false;
    for (size_t i = 0; i < n; i++) {
        u8 c = (u8)s[i];
        if ((u8)(c - 'A') < 26) c += 32;
        if (c != (u8)low[i]) return false;
    }
    return true;
}

// container: [ or { if the type is a sequence or map of its own kind
struct Rnone { static const char container = 0; };
template <typename T, typename = void> struct R;
template <> struct R<bool> : Rnone {
    static bool fits(const M& m) { return m.t == 't' || m.t == 'f'; }
    static bool eq(bool v, const M& m) { return v == (m.t == 't'); }
};
template <typename T> struct R<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> : Rnone {
    static bool fits(const M& m) { return m.t == '#' && intFits<T>(m.s); }
    static bool eq(T v, const M& m) { return v == intOf<T>(m.s); }
};
// numbers read as floating point are concrete texts
template <typename T> struct R<T, std::enable_if_t<std::is_floating_point_v<T>>> : Rnone {
    static bool fits(const M& m) { return m.t == '#' && !textIs(m.s, "1e9999") && !textIs(m.s, "-1e9999") && !(std::is_same_v<T, float> && textIs(m.s, "1e300")); }
    static bool eq(T v, const M& m)
    {
        if (textIs(m.s, "0")) return v == 0;
        if (textIs(m.s, "1")) return v == 1;
        if (textIs(m.s, "-1.5e3")) return v == -1500;
        return true;
    }
};
template <> struct R<std::string> : Rnone {
    static bool fits(const M& m) { return m.t == '"'; }
    static bool eq(const std::string& v, const M& m) { return sameText(v, m.s); }
};
template <> struct R<std::nullptr_t> : Rnone {
    static bool fits(const M& m) { return m.t == 'n'; }
    static bool eq(std::nullptr_t, const M&) { return true; }
};
template <> struct R<std::monostate> : Rnone {
    static bool fits(const M& m) { return m.t == 'n'; }
    static bool eq(std::monostate, const M&) { return true; }
};
template <> struct R<Col> : Rnone {
    static bool fits(const M& m) { return m.t == '"' ? textIs(m.s, "red") || textIs(m.s, "green") || textIs(m.s, "dark_blue") : R<int>::fits(m); }
    static bool eq(Col v, const M& m)
    {
        if (m.t == '#') return (int)v == intOf<int>(m.s);
        return v == (textIs(m.s, "red") ? Col::red : textIs(m.s, "green") ? Col::green : Col::dark_blue);
    }
};
template <> struct R<Big> : Rnone {
    static bool fits(const M& m) { return m.t == '"' ? textIs(m.s, "big_one") || textIs(m.s, "big_two") : R<unsigned long long>::fits(m); }
    static bool eq(Big v, const M& m)
    {
        if (m.t == '#') return (unsigned long long)v == intOf<unsigned long long>(m.s);
        return v == (textIs(m.s, "big_one") ? big_one : big_two);
    }
};
template <> struct R<json::value> : Rnone {
    static bool fits(const M&) { return true; }
    static bool eq(const json::value& v, const M& m) { same(v, m, "another value"); return true; }
};
template <> struct R<json::array> : Rnone {
    static bool fits(const M& m) { return m.t == '['; }
    static bool eq(const json::array& v, const M& m) { same(v, m.el, "another array"); return true; }
};
template <> struct R<json::object> : Rnone {
    static bool fits(const M& m) { return m.t == '{'; }
    static bool eq(const json::object& v, const M& m) { same(v, m.mem, "another object"); return true; }
};
template <> struct R<Pt> : Rnone {
    static bool fits(const M& m)
    {
        if (m.t != '{') return false;
        const M* x = m.find("x");
        const M* t = m.find("t");
        return x && R<int>::fits(*x) && (!t || t->t == 'n' || t->t == '"');
    }
    static bool eq(const Pt& v, const M& m)
    {
        const M* t = m.find("t");
        if (!R<int>::eq(v.x, *m.find("x"))) return false;
        return t && t->t == '"' ? v.tag && sameText(*v.tag, t->s) : !v.tag;
    }
};
template <typename P, typename T> struct RP : Rnone {
    static bool fits(const M& m) { return m.t == 'n' || R<T>::fits(m); }
    static bool eq(const P& v, const M& m) { return m.t == 'n' ? !v : v && R<T>::eq(*v, m); }
};
template <typename T> struct R<std::optional<T>> : RP<std::optional<T>, T> {};
template <typename T> struct R<std::shared_ptr<T>> : RP<std::shared_ptr<T>, T> {};
template <typename T> struct R<std::unique_ptr<T>> : RP<std::unique_ptr<T>, T> {};
template <typename C, typename T> struct RS {
    static const char container = '[';
    static bool fits(const M& m)
    {
        if (m.t != '[') return false;
        for (auto& e : m.el)
            if (!R<T>::fits(e)) return false;
        return true;
    }
    static bool eq(const C& v, const M& m)
    {
        if (v.size() != m.el.size()) return false;
        size_t i = 0;
        for (const auto& e : v)
            if (!R<T>::eq(e, m.el[i++])) return false;
        return true;
    }
};
template <typename T> struct R<std::vector<T>> : RS<std::vector<T>, T> {};
template <typename T> struct R<std::list<T>> : RS<std::list<T>, T> {};
template <typename T> struct R<std::deque<T>> : RS<std::deque<T>, T> {};
// every element of one is in the other
template <typename C, typename T> struct RU : RS<C, T> {
    static bool eq(const C& v, const M& m)
    {
        size_t distinct = 0;
        for (size_t i = 0; i < m.el.size(); i++) {
            bool found = false, before = false;
            for (const auto& e : v) found |= R<T>::eq(e, m.el[i]);
            if (!found) return false;
            for (size_t j = 0; j < i; j++) before |= same(m.el[i], m.el[j]) || (m.el[i].t == '#' && m.el[j].t == '#' && R<long long>::fits(m.el[i]) && R<long long>::fits(m.el[j]) && intOf<long long>(m.el[i].s) == intOf<long long>(m.el[j].s));
            distinct += !before;
        }
        return v.size() == distinct;
    }
};
template <typename T> struct R<std::set<T>> : RU<std::set<T>, T> {};
template <typename T> struct R<std::unordered_set<T>> : RU<std::unordered_set<T>, T> {};
template <typename T, size_t N> struct R<std::array<T, N>> : RS<std::array<T, N>, T> {
    static bool fits(const M& m) { return RS<std::array<T, N>, T>::fits(m) && m.el.size() == N; }
};
template <typename C, typename T> struct RM {
    static const char container = '{';
    static bool fits(const M& m)
    {
        if (m.t != '{') return false;
        for (auto& e : m.mem)
            if (!R<T>::fits(e.val)) return false;
        return true;
    }
    static bool eq(const C& v, const M& m)
    {
        if (v.size() != m.mem.size()) return false;
        for (auto& e : m.mem) {
            bool found = false;
            for (const auto& [k, x] : v)
                if (sameText(k, e.key)) {
                    if (!R<T>::eq(x, e.val)) return false;
                    found = true;
                }
            if (!found) return false;
        }
        return true;
    }
};
template <typename T> struct R<std::map<std::string, T>> : RM<std::map<std::string, T>, T> {};
template <typename T> struct R<std::unordered_map<std::string, T>> : RM<std::unordered_map<std::string, T>, T> {};
template <typename... Ts> struct RT {
    static const char container = '[';
    template <size_t... I> static bool all(const M& m, std::index_sequence<I...>) { return (R<Ts>::fits(m.el[I]) && ...); }
    static bool fits(const M& m) { return m.t == '[' && m.el.size() == sizeof...(Ts) && all(m, std::index_sequence_for<Ts...> {}); }
    template <typename P, size_t... I> static bool eqs(const P& v, const M& m, std::index_sequence<I...>) { return (R<Ts>::eq(std::get<I>(v), m.el[I]) && ...); }
    template <typename P> static bool eq(const P& v, const M& m) { return eqs(v, m, std::index_sequence_for<Ts...> {}); }
};
template <typename A, typename B> struct R<std::pair<A, B>> : RT<A, B> {};
template <typename... Ts> struct R<std::tuple<Ts...>> : RT<Ts...> {};
// the first alternative that fits
template <typename... Ts> struct R<std::variant<Ts...>> : Rnone {
    static bool fits(const M& m) { return (R<Ts>::fits(m) || ...); }
    static size_t first(const M& m)
    {
        size_t i = 0;
        (void)((R<Ts>::fits(m) ? true : (i++, false)) || ...);
        return i;
    }
    static bool eq(const std::variant<Ts...>& v, const M& m)
    {
        return v.index() == first(m) && std::visit([&](const auto& x) { return R<std::decay_t<decltype(x)>>::eq(x, m); }, v);
    }
};

// std::is_copy_constructible says yes to a vector of unique_ptr
template <typename T> struct MoveOnly : std::false_type {};
template <typename T> struct MoveOnly<std::unique_ptr<T>> : std::true_type {};
template <typename T> struct MoveOnly<std::vector<T>> : MoveOnly<T> {};
template <typename T> struct MoveOnly<std::map<std::string, T>> : MoveOnly<T> {};

// ---------------------------------------------------------------- the list
template <typename... Ts> struct Tuple {};
typedef std::string S;
// scalars
#define TYPES0(X) X(bool) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(float) X(double) X(long double) X(S) X(std::nullptr_t) X(std::monostate) X(Col) X(Big) X(Pt) X(json::value) X(json::array) X(json::object)
typedef std::optional<int> t1_0;
typedef std::optional<S> t1_1;
typedef std::shared_ptr<int> t1_2;
typedef std::unique_ptr<S> t1_3;
typedef std::optional<std::list<bool>> t1_4;
typedef std::variant<int, S> t1_5;
typedef std::variant<bool, std::vector<int>, std::map<S, int>> t1_6;
typedef std::variant<std::monostate, double, std::vector<std::optional<S>>> t1_7;
typedef std::unique_ptr<Pt> t1_8;
typedef std::optional<Col> t1_9;
typedef std::shared_ptr<std::map<S, bool>> t1_10;
// alternatives that accept the same values
typedef std::variant<unsigned, int, long long, S> t1_11;
typedef std::variant<int, double> t1_12;
typedef std::variant<Col, S> t1_13;
typedef std::variant<std::pair<int, S>, std::vector<std::optional<int>>, std::list<json::value>> t1_14;
typedef std::variant<Pt, std::map<S, int>, std::map<S, json::value>> t1_15;
#define TYPES1(X) X(t1_0) X(t1_1) X(t1_2) X(t1_3) X(t1_4) X(t1_5) X(t1_6) X(t1_7) X(t1_8) X(t1_9) X(t1_10) X(t1_11) X(t1_12) X(t1_13) X(t1_14) X(t1_15)
typedef std::vector<int> t2_0;
typedef std::list<bool> t2_1;
typedef std::deque<S> t2_2;
typedef std::set<int> t2_3;
typedef std::set<S> t2_4;
typedef std::unordered_set<S> t2_5;
typedef std::vector<json::value> t2_6;
typedef std::vector<std::vector<int>> t2_7;
typedef std::vector<std::unique_ptr<int>> t2_8;
typedef std::array<int, 2> t2_9;
typedef std::array<S, 1> t2_10;
typedef std::array<bool, 0> t2_11;
typedef std::pair<int, S> t2_12;
typedef std::pair<std::optional<int>, std::vector<S>> t2_13;
typedef std::tuple<int, S, bool> t2_14;
typedef std::tuple<json::value> t2_15;
typedef std::vector<Pt> t2_16;
typedef std::list<std::pair<S, int>> t2_17;
typedef std::array<std::array<int, 1>, 2> t2_18;
#define TYPES2(X) X(t2_0) X(t2_1) X(t2_2) X(t2_3) X(t2_4) X(t2_5) X(t2_6) X(t2_7) X(t2_8) X(t2_9) X(t2_10) X(t2_11) X(t2_12) X(t2_13) X(t2_14) X(t2_15) X(t2_16) X(t2_17) X(t2_18)
typedef std::map<S, int> t3_0;
typedef std::map<S, std::optional<bool>> t3_1;
typedef std::unordered_map<S, S> t3_2;
typedef std::map<S, json::value> t3_3;
typedef std::map<S, std::vector<std::pair<int, S>>> t3_4;
typedef std::unordered_map<S, std::map<S, int>> t3_5;
typedef std::map<S, std::unique_ptr<S>> t3_6;
typedef std::map<S, Pt> t3_7;
typedef std::map<S, std::array<int, 1>> t3_8;
#define TYPES3(X) X(t3_0) X(t3_1) X(t3_2) X(t3_3) X(t3_4) X(t3_5) X(t3_6) X(t3_7) X(t3_8)
#define HX_CASE(T) if (k-- == 0) return f(static_cast<T*>(nullptr));
#if HX_GROUP == 0
#define TYPES TYPES0
#elif HX_GROUP == 1
#define TYPES TYPES1
#elif HX_GROUP == 2
#define TYPES TYPES2
#else
#define TYPES TYPES3
#endif
template <typename F> static void withType(int64_t k, F f)
{
    TYPES(HX_CASE)
    symx_fail("harness: no such type");
}
static inline int64_t pickType()
{
    int64_t lo = symx_param(0), hi = symx_param(1);
#define HX_ONE(T) n++;
    int64_t n = 0;
    TYPES(HX_ONE)
    if (hi < 0 || hi >= n) hi = n - 1;
    return lo == hi ? lo : lo + symx_pick((unsigned)(hi - lo + 1), "type");
}
