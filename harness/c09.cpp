#include "hv.hpp"
#include <limits>
template <typename T> static T get(const json::value& v, int how)
{
    if (how == 1) return v.as<T>();
    if (how == 2) return json::value(v).as<T>();
    if (how == 3) return static_cast<T>(v);
    if constexpr (std::is_same_v<T, int>) return v.as_integer();
    else if constexpr (std::is_same_v<T, unsigned>) return v.as_unsigned();
    else if constexpr (std::is_same_v<T, long>) return v.as_long();
    else if constexpr (std::is_same_v<T, unsigned long>) return v.as_unsigned_long();
    else if constexpr (std::is_same_v<T, long long>) return v.as_long_long();
    else return v.as_unsigned_long_long();
}
template <typename T> static std::string bound(bool neg)
{
    unsigned long long v = (unsigned long long)std::numeric_limits<T>::max() + neg;
    std::string s;
    for (; v; v /= 10) s.insert(s.begin(), (char)('0' + v % 10));
    return s;
}
// digits (no leading zero unless alone) at most the bound
static bool within(const char* d, size_t n, const std::string& b)
{
    if (n != b.size()) return n < b.size();
    for (size_t i = 0; i < n; i++)
        if (d[i] != b[i]) return d[i] < b[i];
    return true;
}
template <typename T> static T horner(const char* d, size_t n, bool neg)
{
    std::make_unsigned_t<T> a = 0;
    for (size_t i = 0; i < n; i++) a = a * 10 + (u8)(d[i] - '0');
    return (T)(neg ? 0 - a : a);
}
// a number built from x is x's decimal text and reads back as x; 1: digits, 2: negative
template <typename T> static void write()
{
    int k = (int)symx_param(1);
    bool neg = symx_param(2);
    char d[24];
    symx_symbolic(d, k, "digits");
    for (int i = 0; i < k; i++) symx_assume((u8)(d[i] - '0') < 10);
    if (k > 1 || neg) symx_assume(d[0] != '0');
    symx_assume(within(d, k, bound<T>(neg)));
    T x = horner<T>(d, k, neg);
    json::value v(x);
    symx_check(v.is_number(), "not a number");
    std::string want = (neg ? "-" : "") + std::string(d, k);
    symx_check(sameText(v.to_string(), want), "another text");
    symx_check(sameText(json::array { v }.dumps(), "[" + want + "]"), "another text in an array");
    symx_check(v.is<T>(), "is<T>() is false");
    for (int how = 0; how < 4; how++) symx_check(get<T>(v, how) == x, "reads back as another number");
    symx_reach("end");
}
// reading a number text as T: template as params 1.., only well-formed numbers
template <typename T> static void read()
{
    M m = tmpl(1);
    symx_assume(m.t == '#');
    json::value v = mk(m);
    const std::string& s = m.s;
    bool neg = s[0] == '-', integer = true;
    for (size_t k = neg; k < s.size(); k++)
        if ((u8)(s[k] - '0') >= 10) { integer = false; break; }
    bool fits = integer && (std::is_signed_v<T> || !neg) && within(s.data() + neg, s.size() - neg, bound<T>(neg));
    // "-0" is within an unsigned type's range, but has a sign: not settled
    if (neg && !std::is_signed_v<T>) symx_assume(!(s.size() == 2 && s[1] == '0'));
    // every prefix against the limits, so that what follows is decided by ranges
    if (integer) {
        int k = 0;
        for (const std::string& b : { bound<T>(neg), bound<unsigned long long>(false) })
            for (size_t n = b.size() - 1; n <= b.size(); n++)
                if (n <= s.size() - neg) k = 2 * k + within(s.data() + neg, n, b.substr(0, n));
        symx_observe(k);
    }
    symx_observe(fits);
    symx_reach(fits ? "fits" : "refused");
    T want = fits ? horner<T>(s.data() + neg, s.size() - neg, neg) : 0;
    symx_check(v.is<T>() == fits, "is<T>() is wrong");
    for (int how = 0; how < 4; how++) {
        bool got = false;
        T x = 0;
        try {
            x = get<T>(v, how);
            got = true;
        }
        catch (const json::exception&) {
        }
        symx_check(got == fits, "a number is read that is not one of the type, or refused");
        if (got) symx_check(x == want, "another number is read");
    }
    same(v, m, "reading changed the value");
}
#define ALL(f) switch (symx_param(0)) { case 0: f<int>(); break; case 1: f<unsigned>(); break; case 2: f<long>(); break; case 3: f<unsigned long>(); break; case 4: f<long long>(); break; default: f<unsigned long long>(); }
extern "C" void write_int() { ALL(write) }
extern "C" void read_int() { ALL(read) }
