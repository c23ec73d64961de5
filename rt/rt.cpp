// Stand-ins for the out-of-line parts of libstdc++/libc that the bitcode needs.
// They are part of the trusted base; sampled paths are compared with native runs
// that use the real library.
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <variant>

#include "symx.h"
extern "C" {
uint64_t symx_concurrent(uint64_t (*f)(const void*), const void* arg)
{
    symx_freeze(1);
    uint64_t a = f(arg); // the first call may initialise function-local statics
    symx_freeze(1);
    uint64_t b = f(arg);
    symx_freeze(0);
    symx_check(a == b, "two threads get different results");
    return a;
}
#define ISF(name, expr) int name(int c) { return (int)(expr); }
ISF(isdigit, (unsigned)c - '0' < 10u)
ISF(isxdigit, (((unsigned)c - '0' < 10u) | ((((unsigned)c | 32u) - 'a') < 6u)))
ISF(isspace, ((c == ' ') | ((unsigned)c - 9u < 5u)))
ISF(isupper, (unsigned)c - 'A' < 26u)
ISF(islower, (unsigned)c - 'a' < 26u)
ISF(isalpha, ((unsigned)c | 32u) - 'a' < 26u)
ISF(isalnum, ((((unsigned)c | 32u) - 'a' < 26u) | ((unsigned)c - '0' < 10u)))
ISF(iscntrl, (((unsigned)c < 32u) | (c == 127)))
ISF(isprint, (unsigned)c - 32u < 95u)
ISF(ispunct, (((unsigned)c - 33u < 94u) & !((((unsigned)c | 32u) - 'a' < 26u) | ((unsigned)c - '0' < 10u))))
int tolower(int c) { return c + (((unsigned)c - 'A' < 26u) << 5); }
int toupper(int c) { return c - (((unsigned)c - 'a' < 26u) << 5); }
size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) { a++; b++; }
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n)
{
    while (n && *a && *a == *b) { a++; b++; n--; }
    return n ? (unsigned char)*a - (unsigned char)*b : 0;
}
char* symx_strchr(const char* s, int c) __asm__("strchr");
char* symx_strchr(const char* s, int c)
{
    for (;; s++) {
        if (*s == (char)c) return (char*)s;
        if (!*s) return nullptr;
    }
}
char* symx_strrchr(const char* s, int c) __asm__("strrchr");
char* symx_strrchr(const char* s, int c)
{
    char* r = nullptr;
    for (;; s++) {
        if (*s == (char)c) r = (char*)s;
        if (!*s) return r;
    }
}
void* symx_memrchr(const void* p, int c, size_t n) __asm__("memrchr");
void* symx_memrchr(const void* p, int c, size_t n)
{
    const unsigned char* s = (const unsigned char*)p;
    while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n);
    return nullptr;
}
static bool among(char c, const char* set)
{
    for (; *set; set++) if (*set == c) return true;
    return false;
}
size_t strspn(const char* s, const char* set)
{
    size_t n = 0;
    while (s[n] && among(s[n], set)) n++;
    return n;
}
size_t strcspn(const char* s, const char* set)
{
    size_t n = 0;
    while (s[n] && !among(s[n], set)) n++;
    return n;
}
char* symx_strpbrk(const char* s, const char* set) __asm__("strpbrk");
char* symx_strpbrk(const char* s, const char* set)
{
    s += strcspn(s, set);
    return *s ? (char*)s : nullptr;
}
void* symx_memmem(const void* h, size_t n, const void* needle, size_t m) __asm__("memmem");
void* symx_memmem(const void* h, size_t n, const void* needle, size_t m)
{
    for (const char* p = (const char*)h; n >= m; p++, n--) {
        size_t i = 0;
        while (i < m && p[i] == ((const char*)needle)[i]) i++;
        if (i == m) return (void*)p;
    }
    return nullptr;
}
char* symx_strstr(const char* h, const char* n) __asm__("strstr");
char* symx_strstr(const char* h, const char* n) { return (char*)symx_memmem(h, strlen(h), n, strlen(n)); }
size_t strnlen(const char* s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i]) i++;
    return i;
}
char* strcpy(char* d, const char* s)
{
    memcpy(d, s, strlen(s) + 1);
    return d;
}
char* stpcpy(char* d, const char* s)
{
    size_t n = strlen(s);
    memcpy(d, s, n + 1);
    return d + n;
}
char* strncpy(char* d, const char* s, size_t n)
{
    size_t k = strnlen(s, n);
    memcpy(d, s, k);
    memset(d + k, 0, n - k);
    return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n)
{
    char* e = d + strlen(d);
    size_t k = strnlen(s, n);
    memcpy(e, s, k);
    e[k] = 0;
    return d;
}
char* strdup(const char* s)
{
    size_t n = strlen(s) + 1;
    return (char*)memcpy(malloc(n), s, n);
}
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int strncasecmp(const char* a, const char* b, size_t n)
{
    while (n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; n--; }
    return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0;
}
int strcasecmp(const char* a, const char* b) { return strncasecmp(a, b, (size_t)-1); }
size_t wcslen(const wchar_t* s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}

// printf for integers, characters and strings. Floating-point numbers: see fpio.cpp
void symx_unsupported_format(); // undefined: stops the path as not encoded
#ifdef SYMX_FPIO
const char* symx_format_double(double x, int precision, char conv, bool plus, int* len);
const char* symx_format_long(long double x, int precision, char conv, bool plus, int* len);
#endif
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) noexcept
{
    size_t n = 0;
    auto put = [&](char c) {
        if (n + 1 < cap) out[n] = c;
        n++;
    };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++;
        bool left = false, plus = false, space = false, alt = false, zero = false;
        for (;; f++) {
            if (*f == '-') left = true;
            else if (*f == '+') plus = true;
            else if (*f == ' ') space = true;
            else if (*f == '#') alt = true;
            else if (*f == '0') zero = true;
            else break;
        }
        long width = 0, prec = -1;
        if (*f == '*') {
            width = va_arg(ap, int);
            if (width < 0) { left = true; width = -width; }
            f++;
        }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            f++;
            prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
        }
        int size = 4;
        bool longDouble = false;
        for (;; f++) {
            if (*f == 'h') size = size == 2 ? 1 : 2;
            else if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') size = 8;
            else if (*f == 'L') longDouble = true;
            else break;
        }
        char digits[68], prefix[3];
        const char* body = digits;
        size_t len = 0, pre = 0;
        switch (*f) {
        case '%': put('%'); continue;
        case 'c':
            if (size == 8) symx_unsupported_format();
            digits[0] = (char)va_arg(ap, int);
            len = 1;
            zero = false;
            break;
        case 's':
            if (size == 8) symx_unsupported_format();
            body = va_arg(ap, const char*);
            len = prec >= 0 ? strnlen(body, (size_t)prec) : strlen(body);
            zero = false;
            break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
            uint64_t v;
            bool neg = false;
            if (*f == 'd' || *f == 'i') {
                int64_t s = size == 8 ? va_arg(ap, int64_t) : va_arg(ap, int);
                if (size == 2) s = (short)s;
                if (size == 1) s = (signed char)s;
                neg = s < 0;
                v = neg ? 0 - (uint64_t)s : (uint64_t)s;
                if (neg) prefix[pre++] = '-';
                else if (plus) prefix[pre++] = '+';
                else if (space) prefix[pre++] = ' ';
            }
            else {
                v = size == 8 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
                if (size == 2) v = (unsigned short)v;
                if (size == 1) v = (unsigned char)v;
            }
            unsigned base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10;
            if (alt && base == 8) symx_unsupported_format();
            if (alt && base == 16 && v) { prefix[pre++] = '0'; prefix[pre++] = *f; }
            char* d = digits + sizeof digits;
            const char* set = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
            while (v) { *--d = set[v % base]; v /= base; }
            while (d > digits && digits + sizeof digits - d < (prec < 0 ? 1 : prec)) *--d = '0';
            if (prec > 60) symx_unsupported_format();
            if (prec >= 0) zero = false;
            body = d;
            len = (size_t)(digits + sizeof digits - d);
            break;
        }
#ifdef SYMX_FPIO
        case 'e': case 'E': case 'g': case 'G': {
            int l = 0;
            if (alt || space || zero) symx_unsupported_format();
            body = longDouble ? symx_format_long(va_arg(ap, long double), (int)prec, *f, plus, &l) : symx_format_double(va_arg(ap, double), (int)prec, *f, plus, &l);
            len = (size_t)l;
            break;
        }
#endif
        default: symx_unsupported_format();
        }
        long fill = width - (long)(len + pre);
        if (!left && !zero) for (; fill > 0; fill--) put(' ');
        for (size_t i = 0; i < pre; i++) put(prefix[i]);
        if (!left && zero) for (; fill > 0; fill--) put('0');
        for (size_t i = 0; i < len; i++) put(body[i]);
        if (left) for (; fill > 0; fill--) put(' ');
    }
    if (cap) out[n < cap ? n : cap - 1] = 0;
    return (int)n;
}
int vsprintf(char* out, const char* f, va_list ap) noexcept { return vsnprintf(out, (size_t)1 << 30, f, ap); }
int snprintf(char* out, size_t cap, const char* f, ...) noexcept
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(out, cap, f, ap);
    va_end(ap);
    return r;
}
int sprintf(char* out, const char* f, ...) noexcept
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(out, (size_t)1 << 30, f, ap);
    va_end(ap);
    return r;
}
static int digval(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
// common scanner of the strto* family: magnitude (saturated, with overflow flag)
static unsigned long scan(const char* s, char** end, int base, bool& neg, bool& over, bool& any)
{
    const char* p = s;
    neg = over = any = false;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-') { neg = true; p++; }
    else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digval(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0;
    for (;; p++) {
        int d = digval(*p);
        if (d >= base) break;
        any = true;
        unsigned long nv;
        if (__builtin_mul_overflow(v, (unsigned long)base, &nv) || __builtin_add_overflow(nv, (unsigned long)d, &nv)) over = true;
        else v = nv;
    }
    if (end) *end = (char*)(any ? p : s);
    return v;
}
long strtol(const char* s, char** end, int base)
{
    bool neg, over, any;
    unsigned long v = scan(s, end, base, neg, over, any);
    if (neg) {
        if (over || v > (unsigned long)LONG_MAX + 1) { errno = ERANGE; return LONG_MIN; }
        return (long)(0 - v);
    }
    if (over || v > (unsigned long)LONG_MAX) { errno = ERANGE; return LONG_MAX; }
    return (long)v;
}
unsigned long strtoul(const char* s, char** end, int base)
{
    bool neg, over, any;
    unsigned long v = scan(s, end, base, neg, over, any);
    if (over) { errno = ERANGE; return ULONG_MAX; }
    return neg ? 0 - v : v;
}
long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
}

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char* dupmsg(const char* s, size_t n)
{
    char* p = (char*)malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
__cow_string::__cow_string() : _M_p(dupmsg("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupmsg(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupmsg(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupmsg(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
    if (this != &o) { const char* p = dupmsg(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = p; }
    return *this;
}
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupmsg("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept
{
    const char* t = _M_p;
    _M_p = o._M_p;
    o._M_p = t;
    return *this;
}
#define ROOT(C) \
    C::C(const string& s) : _M_msg(s) {} \
    C::C(const char* s) : _M_msg(s, strlen(s)) {} \
    C::C(C&& o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {} \
    C& C::operator=(C&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
    C::C(const C& o) noexcept : exception(), _M_msg(o._M_msg) {} \
    C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
    C::~C() noexcept {} \
    const char* C::what() const noexcept { return _M_msg._M_p; }
ROOT(logic_error)
ROOT(runtime_error)
#define SUB(C, B) \
    C::C(const string& s) : B(s) {} \
    C::C(const char* s) : B(s) {} \
    C::~C() noexcept {}
SUB(domain_error, logic_error)
SUB(invalid_argument, logic_error)
SUB(length_error, logic_error)
SUB(out_of_range, logic_error)
SUB(range_error, runtime_error)
SUB(overflow_error, runtime_error)
SUB(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_alloc(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ---- red-black tree, without the balancing: the order of the nodes is what matters
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    }
    else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black; // only the header is red, which _Rb_tree_decrement relies on
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    if (h._M_left == z) {
        if (z == h._M_right) { h._M_parent = nullptr; h._M_left = h._M_right = &h; return z; }
        h._M_left = _Rb_tree_increment(z);
    }
    else if (h._M_right == z) h._M_right = _Rb_tree_decrement(z);
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept
{
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        _M_prev->_M_next = f;
        auto* t = _M_prev;
        _M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = t;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    bool ex = x._M_next == &x, ey = y._M_next == &y;
    _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    if (ey) x._M_next = x._M_prev = &x;
    else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = yp->_M_next = &x; }
    if (ex) y._M_next = y._M_prev = &y;
    else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = xp->_M_next = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t t[] = { 2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109 };
    for (size_t p : t)
        if (p >= n) { _M_next_resize = p; return p; }
    __throw_length_error("too many buckets for the model");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize || (nb == 1 && _M_next_resize == 0)) {
        size_t want = ne + ni + 1;
        if (want < nb * 2) want = nb * 2;
        return { true, _M_next_bkt(want) };
    }
    return { false, 0 };
}
}
// any function of the bytes is a hash; a constant one keeps all elements in one bucket
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
}
