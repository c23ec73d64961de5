// The C library's printing and reading of floating-point numbers, by contract.
//
// Printing x with P significant digits (%.Pg, %.Pe) gives some text of the form the format prescribes for the
// decimal exponent of x; its digits are symbolic. Reading gives the number back - strtoT(text) == x - if the text
// is exactly the one printed, T is the type it was printed from and P is at least max_digits10 of that type
// (the theorem IEEE 754-2008, 5.12.2 and C Annex F rely on), and sets errno to ERANGE if x is subnormal, as glibc
// does. A text printed with fewer digits reads as any number. Float arguments are printed as doubles; that the number
// was a float is parameter 0 of the harness. Other texts are read by the real functions, one of each kind.
#include "symx.h"
#include <cerrno>
#include <cstring>
#include <limits>
#include <ostream>
#pragma clang diagnostic ignored "-Wunsupported-floating-point-opt"

typedef unsigned __int128 u128;
extern "C" void symx_pin(const void* p, size_t n); // the engine: fix these bytes to one value, noting that the rest is not explored
extern "C" void symx_unsupported_format();         // undefined: stops the path as not encoded
extern "C" { double symx_real_strtod(const char*, char**); float symx_real_strtof(const char*, char**); long double symx_real_strtold(const char*, char**); }

template <typename T> static u128 bitsOf(T x)
{
    u128 b = 0;
    __builtin_memcpy(&b, &x, sizeof(T) == 16 ? 10 : sizeof(T));
    return b;
}
template <typename T> static T ofBits(u128 b)
{
    T x = 0;
    __builtin_memcpy(&x, &b, sizeof(T) == 16 ? 10 : sizeof(T));
    return x;
}
template <typename T> struct F;
template <> struct F<float> { enum { width = 32, mant = 23, kind = 0 }; };
template <> struct F<double> { enum { width = 64, mant = 52, kind = 1 }; };
template <> struct F<long double> { enum { width = 80, mant = 64, kind = 2 }; };

struct Print {
    int from;       // type it was printed from, as an argument
    u128 bits;
    int digits;     // significant ones
    unsigned flags;
    int len;
    bool negative;
    char text[420];
};
static Print prints[6];
static int nprints;

static const long double ten[] = { 1e0L, 1e1L, 1e2L, 1e3L, 1e4L, 1e5L, 1e6L, 1e7L, 1e8L, 1e9L, 1e10L, 1e11L, 1e12L, 1e13L, 1e14L, 1e15L, 1e16L, 1e17L, 1e18L, 1e19L, 1e20L, 1e21L, 1e22L, 1e23L, 1e24L };
static const long double tenth[] = { 1e0L, 1e-1L, 1e-2L, 1e-3L, 1e-4L, 1e-5L, 1e-6L, 1e-7L, 1e-8L, 1e-9L, 1e-10L };
template <typename T> static u128 power(int e)
{
    constexpr int top = std::numeric_limits<T>::max_exponent10, low = std::numeric_limits<T>::min_exponent10;
    if (e > top) return bitsOf(std::numeric_limits<T>::infinity());
    if (e < low) return e == low - 1 ? bitsOf(std::numeric_limits<T>::min()) : bitsOf(std::numeric_limits<T>::denorm_min());
    switch (e) {
    case 100: return bitsOf((T)1e100L);
    case 1000: return bitsOf((T)1e1000L);
    case -99: return bitsOf((T)1e-99L);
    case -999: return bitsOf((T)1e-999L);
    }
    if (e >= 0 && e < 25) return bitsOf((T)ten[e]);
    if (e < 0 && e > -11) return bitsOf((T)tenth[-e]);
    symx_unsupported_format();
    return 0;
}
static int put(Print& p, char c) { p.text[p.len] = c; return p.len++; }
static void digits(Print& p, int n, bool lastNonzero, bool firstNonzero)
{
    if (n <= 0) return;
    char* d = p.text + p.len;
    symx_symbolic(d, (size_t)n, "printed digits");
    for (int i = 0; i < n; i++) symx_assume((d[i] >= '0') & (d[i] <= '9'));
    if (firstNonzero) symx_assume(d[0] != '0');
    if (lastNonzero) symx_assume(d[n - 1] != '0');
    p.len += n;
}
// the exponent, of n digits, in [lo, hi]
static void exponent(Print& p, int n, int lo, int hi, bool upper)
{
    put(p, upper ? 'E' : 'e');
    bool neg = hi < 0;
    put(p, neg ? '-' : '+');
    int at = p.len;
    digits(p, n, false, false);
    unsigned v = 0;
    for (int i = 0; i < n; i++) v = v * 10 + (unsigned)(p.text[at + i] - '0');
    symx_assume(neg ? (v >= (unsigned)-hi) & (v <= (unsigned)-lo) : (v >= (unsigned)lo) & (v <= (unsigned)hi));
}
template <typename T> static const Print& format(T x, std::ios_base::fmtflags fl, int P)
{
    std::ios_base::fmtflags style = fl & std::ios_base::floatfield;
    bool upper = fl & std::ios_base::uppercase, sci = style == std::ios_base::scientific;
    if ((style && !sci) || (fl & (std::ios_base::showpoint))) symx_unsupported_format();
    fl &= std::ios_base::floatfield | std::ios_base::uppercase | std::ios_base::showpos;
    P = (int)symx_conc((uint64_t)P);
    if (P < 0) P = 6;
    if (!sci && P == 0) P = 1;
    if (sci) P++;
    if (P > 60) symx_unsupported_format();
    u128 b = bitsOf(x), sign = (u128)1 << (F<T>::width - 1), mag = b & (sign - 1);
    for (int i = 0; i < nprints; i++) {
        Print& q = prints[i];
        if (q.from == F<T>::kind && q.digits == P && q.flags == (unsigned)fl && q.bits == b) return q;
    }
    if (nprints == 6) symx_unsupported_format();
    Print& p = prints[nprints++];
    p.from = F<T>::kind;
    p.bits = b;
    p.digits = P;
    p.flags = (unsigned)fl;
    p.negative = b & sign;
    p.len = 0;
    if (p.negative) put(p, '-');
    else if (fl & std::ios_base::showpos) put(p, '+');
    u128 inf = bitsOf(std::numeric_limits<T>::infinity());
    if (mag >= inf) {
        const char* s = mag == inf ? upper ? "INF" : "inf" : upper ? "NAN" : "nan";
        for (int i = 0; i < 3; i++) put(p, s[i]);
    }
    else if (mag == 0) {
        put(p, '0');
        if (sci) {
            if (P > 1) put(p, '.');
            for (int i = 1; i < P; i++) put(p, '0');
            put(p, upper ? 'E' : 'e'); put(p, '+'); put(p, '0'); put(p, '0');
        }
    }
    else {
        // the classes: exponents below -999, -999..-100 (subnormal or not), -99..-5, each of -4..P-1, P..99, 100..999, above
        constexpr int top = std::numeric_limits<T>::max_exponent10, low = std::numeric_limits<T>::min_exponent10 - std::numeric_limits<T>::digits10 - 1;
        int fixedLo = sci ? 0 : -4, fixedHi = sci ? -1 : P - 1;
        int cut[80], n = 0;
        cut[n++] = low;
        if (low < -999) cut[n++] = -999;
        if (low < -99) cut[n++] = -99;
        if (std::numeric_limits<T>::min_exponent10 - 1 < -99 || std::numeric_limits<T>::min_exponent10 < 0) {
            int m = std::numeric_limits<T>::min_exponent10 - 1; // where the normal numbers begin
            int at = 1;
            while (at < n && cut[at] < m) at++;
            for (int i = n; i > at; i--) cut[i] = cut[i - 1];
            cut[at] = m;
            n++;
        }
        if (sci) cut[n++] = 0;
        else for (int e = fixedLo; e <= fixedHi + 1; e++) cut[n++] = e;
        if (top >= 100) cut[n++] = 100;
        if (top >= 1000) cut[n++] = 1000;
        cut[n] = top + 1;
        int c = (int)symx_pick((unsigned)n, "class of the number");
        symx_assume((mag >= power<T>(cut[c])) & (mag < power<T>(cut[c + 1])));
        int lo = cut[c], hi = cut[c + 1] - 1;
        if (sci || lo < fixedLo || lo > fixedHi) {
            int k = sci ? P : 1 + (int)symx_pick((unsigned)P, "number of digits");
            digits(p, 1, false, true);
            if (k > 1) {
                put(p, '.');
                digits(p, k - 1, !sci, false);
            }
            exponent(p, lo >= 1000 || hi <= -1000 ? 4 : lo >= 100 || hi <= -100 ? 3 : 2, lo, hi, upper);
        }
        else {
            int k = 1 + (int)symx_pick((unsigned)P, "number of digits");
            if (lo < 0) {
                put(p, '0'); put(p, '.');
                for (int i = -1; i > lo; i--) put(p, '0');
                digits(p, k, true, true);
            }
            else {
                digits(p, k < lo + 1 ? k : lo + 1, k <= lo + 1, true);
                for (int i = k; i < lo + 1; i++) put(p, '0');
                if (k > lo + 1) {
                    put(p, '.');
                    digits(p, k - lo - 1, true, false);
                }
            }
        }
    }
    return p;
}
template <typename T> static std::ostream& print(std::ostream& os, T x)
{
    std::ostream::sentry ok(os);
    if (!ok) return os;
    if (os.width()) symx_unsupported_format();
    const Print& p = format(x, os.flags(), (int)os.precision());
    os.write(p.text, p.len);
    return os;
}
static std::ios_base::fmtflags flagsOf(char conv, bool plus)
{
    std::ios_base::fmtflags fl{};
    if (conv == 'e' || conv == 'E') fl |= std::ios_base::scientific;
    if (conv == 'E' || conv == 'G') fl |= std::ios_base::uppercase;
    if (plus) fl |= std::ios_base::showpos;
    return fl;
}
extern "C" const char* symx_format_double(double x, int precision, char conv, bool plus, int* len)
{
    const Print& p = format(x, flagsOf(conv, plus), precision);
    *len = p.len;
    return p.text;
}
extern "C" const char* symx_format_long(long double x, int precision, char conv, bool plus, int* len)
{
    const Print& p = format(x, flagsOf(conv, plus), precision);
    *len = p.len;
    return p.text;
}
namespace std
{
template <> template <> ostream& ostream::_M_insert(double x) { return print(*this, x); }
template <> template <> ostream& ostream::_M_insert(long double x) { return print(*this, x); }
}

static bool dig(char c) { return c >= '0' && c <= '9'; }
template <typename T> static T read(const char* s, char** end, T (*real)(const char*, char**))
{
    const char* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    const char* begin = p;
    if (*p == '-' || *p == '+') p++;
    if (dig(*p) || (*p == '.' && dig(p[1]))) {
        if (*p == '0' && (p[1] == 'x' || p[1] == 'X')) symx_unsupported_format();
        while (dig(*p)) p++;
        if (*p == '.') p++;
        while (dig(*p)) p++;
        if (*p == 'e' || *p == 'E') {
            const char* q = p + 1;
            if (*q == '-' || *q == '+') q++;
            if (dig(*q)) {
                while (dig(*q)) q++;
                p = q;
            }
        }
    }
    else if (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N') symx_unsupported_format();
    else {
        if (end) *end = (char*)s;
        return 0;
    }
    if (end) *end = (char*)p;
    int n = (int)(p - begin);
    for (int i = 0; i < nprints; i++) {
        Print& q = prints[i];
        if (q.len != n) continue;
        bool eq = true;
        for (int j = 0; j < n; j++) eq &= q.text[j] == begin[j];
        if (!eq) continue;
        bool wasFloat = q.from == 1 && symx_param(0) == 0;
        int enough = q.from == 2 ? std::numeric_limits<long double>::max_digits10 : wasFloat ? std::numeric_limits<float>::max_digits10 : std::numeric_limits<double>::max_digits10;
        u128 m = q.bits & (((u128)1 << (q.from == 2 ? 79 : 63)) - 1);
        if (m >= bitsOf(std::numeric_limits<long double>::infinity()) || (q.from == 1 && m >= bitsOf(std::numeric_limits<double>::infinity()))) symx_unsupported_format();
        if (q.digits >= enough) {
            if constexpr (F<T>::kind == 0) {
                if (wasFloat) {
                    float f = (float)ofBits<double>(q.bits);
                    if (m && (bitsOf(f) & 0x7fffffff) < bitsOf(std::numeric_limits<float>::min())) errno = ERANGE;
                    return f;
                }
            }
            else if (q.from == F<T>::kind && q.digits >= std::numeric_limits<T>::max_digits10) {
                if (m && m < bitsOf(std::numeric_limits<T>::min())) errno = ERANGE;
                return ofBits<T>(q.bits);
            }
        }
        if (wasFloat && q.digits >= enough) {
            // read as a wider type: one text of each kind, of the float it is the text of
            symx_pin(s, (size_t)(p - s));
            symx_assume(bitsOf((double)symx_real_strtof(s, nullptr)) == q.bits);
            return real(s, nullptr);
        }
        if (q.from == 1 && F<T>::kind == 2 && q.digits >= enough) {
            symx_pin(s, (size_t)(p - s));
            symx_assume(bitsOf(symx_real_strtod(s, nullptr)) == q.bits);
            return real(s, nullptr);
        }
        // too few digits, or another type: some other number can be what is read
        u128 any = 0;
        symx_symbolic(&any, F<T>::width / 8, "number read");
        symx_assume((any & (bitsOf(std::numeric_limits<T>::infinity()))) != bitsOf(std::numeric_limits<T>::infinity()));
        return ofBits<T>(any);
    }
    // anything else is read as it is, one text of each kind
    symx_pin(s, (size_t)(p - s));
    return real(s, nullptr);
}
extern "C" {
double strtod(const char* s, char** e) noexcept { return read<double>(s, e, symx_real_strtod); }
float strtof(const char* s, char** e) noexcept { return read<float>(s, e, symx_real_strtof); }
long double strtold(const char* s, char** e) noexcept { return read<long double>(s, e, symx_real_strtold); }
}
