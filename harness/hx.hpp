// Shared by the harnesses: documents from parameters, a reference JSON / JSONC reader, comparison.
#pragma once
#include "json.hpp"
#include "symx.h"
#include <cstring>

typedef unsigned char u8;

// ---------------------------------------------------------------- documents
// Every parameter from `first` on is one byte of the document: 0..255 that byte, larger ones a symbolic
// byte of a class.
enum Cls { ANY = 256, DIGIT = 257, HEX = 258, NUM = 259, PLAIN = 260, WS = 261, STRC = 262, NDEF = 263, ESC = 264, NONWS = 265, LOWER = 266, SMALL = 267 };
static inline void assumeClass(u8 c, int64_t cls)
{
    switch (cls) {
    case DIGIT: symx_assume((u8)(c - '0') < 10); break;
    case HEX: symx_assume(((u8)(c - '0') < 10) | ((u8)((c | 32) - 'a') < 6)); break;
    case NUM: symx_assume(((u8)(c - '0') < 10) | (c == '-') | (c == '+') | (c == '.') | (c == 'e') | (c == 'E')); break;
    case PLAIN: symx_assume((c >= 0x20) & (c != '"') & (c != '\\')); break;
    case WS: symx_assume((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r')); break;
    case STRC: symx_assume((c == 'a') | (c == '"') | (c == '\\') | (c == 'u') | (c == '\n') | (c == 0x80)); break;
    case NDEF: symx_assume(c != 0); break;
    case ESC: symx_assume((c == '/') | (c == '*') | (c == '\n') | (c == 'a') | (c == ',')); break;
    case NONWS: symx_assume(c > 0x20); break;
    case LOWER: symx_assume((u8)(c - 'a') < 26); break;
    case SMALL: symx_assume(c < 4); break;
    default: break;
    }
}
// A parameter REP + 256 * count + length stands for `count` copies of the `length` parameters after it.
static const int64_t REP = 1ll << 40;
struct Codes {
    short* p;
    int n = 0;
    Codes(int first, int np)
    {
        for (int i = 0; i < np; i++) {
            int64_t v = symx_param(first + i);
            if (v >= REP) { n += (int)((v - REP) >> 8) * (int)(v & 255); i += (int)(v & 255); }
            else n++;
        }
        p = new short[n + 1];
        int k = 0;
        for (int i = 0; i < np; i++) {
            int64_t v = symx_param(first + i);
            if (v < REP) { p[k++] = (short)v; continue; }
            int len = (int)(v & 255), at = k;
            for (int j = 0; j < len; j++) p[k++] = (short)symx_param(first + i + 1 + j);
            for (int c = 1; c < (int)((v - REP) >> 8); c++, k += len) memcpy(p + k, p + at, sizeof(short) * (size_t)len);
            i += len;
        }
    }
    ~Codes() { delete[] p; }
    Codes(const Codes&) = delete;
};
static inline void fillDoc(u8* buf, const Codes& c)
{
    u8 sym[128];
    int ns = 0;
    for (int i = 0; i < c.n; i++)
        if (c.p[i] >= 256) ns++;
    if (ns > 128) symx_fail("harness: too many symbolic bytes");
    if (ns) symx_symbolic(sym, ns, "doc");
    int k = 0;
    for (int i = 0; i < c.n; i++) {
        if (c.p[i] < 256) buf[i] = (u8)c.p[i];
        else {
            buf[i] = sym[k++];
            assumeClass(buf[i], c.p[i]);
        }
    }
}
// the document of the np parameters from `first` on, in buf; its length
static inline int buildDoc(u8*& buf, int first, int np)
{
    static u8 small[256];
    Codes c(first, np);
    buf = c.n <= 256 ? small : new u8[c.n];
    fillDoc(buf, c);
    return c.n;
}
// an exact-size heap block: one byte further is out of bounds
struct Exact {
    char* p;
    size_t n;
    Exact(const u8* b, size_t len) : p(new char[len]), n(len) { if (len) memcpy(p, b, len); }
    ~Exact() { delete[] p; }
    Exact(const Exact&) = delete;
    std::string_view sv() const { return std::string_view(p, n); }
};

// ---------------------------------------------------------------- reference reader
// Written from RFC 8259 and the README, not from the parser under test.
struct Node {
    char type;           // n t f # " [ {
    int text, len;       // number token or decoded string, in pool
    int key, klen;       // decoded key of a member
    int first, next, count;
};
struct Ref {
    const u8* s;
    int n, i = 0;
    bool jsonc;
    Node* node;
    int nn = 0, maxn = 96;
    u8* pool;
    int np = 0;
    Ref(const u8* b, int len, bool c) : s(b), n(len), jsonc(c), node(new Node[96]), pool(new u8[len + 8]) {} // what is decoded is no longer than the text
    ~Ref() { delete[] node; delete[] pool; }
    Ref(const Ref&) = delete;
    void put(unsigned c)
    {
        if (np >= n + 8) symx_fail("harness: pool too small");
        pool[np++] = (u8)c;
    }
    // whitespace and comments; false: malformed comment
    bool ws()
    {
        while (i < n) {
            u8 c = s[i];
            if ((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r')) { i++; continue; }
            if (!jsonc || c != '/') return true;
            if (i + 1 >= n) return false;
            if (s[i + 1] == '/') {
                i += 2;
                while (i < n && s[i] != '\n') i++;
            }
            else if (s[i + 1] == '*') {
                i += 2;
                while (i + 1 < n && !(s[i] == '*' && s[i + 1] == '/')) i++;
                if (i + 1 >= n) return false;
                i += 2;
            }
            else return false;
        }
        return true;
    }
    bool lit(const char* t)
    {
        for (; *t; t++, i++)
            if (i >= n || s[i] != (u8)*t) return false;
        return true;
    }
    bool dig() const { return i < n && (u8)(s[i] - '0') < 10; }
    bool digits()
    {
        if (!dig()) return false;
        while (dig()) i++;
        return true;
    }
    bool number(Node& nd)
    {
        int b = i;
        if (s[i] == '-') i++;
        if (i < n && s[i] == '0') i++;
        else if (!digits()) return false;
        if (i < n && s[i] == '.') { i++; if (!digits()) return false; }
        if (i < n && (s[i] | 32) == 'e') {
            i++;
            if (i < n && (s[i] == '+' || s[i] == '-')) i++;
            if (!digits()) return false;
        }
        nd.text = np;
        for (int k = b; k < i; k++) put(s[k]);
        nd.len = i - b;
        return true;
    }
    bool hex4(unsigned& v)
    {
        v = 0;
        for (int k = 0; k < 4; k++, i++) {
            if (i >= n) return false;
            u8 c = s[i], d;
            if ((u8)(c - '0') < 10) d = c - '0';
            else if ((u8)((c | 32) - 'a') < 6) d = (c | 32) - 'a' + 10;
            else return false;
            v = v * 16 + d;
        }
        return true;
    }
    bool string(int& off, int& len)
    {
        if (i >= n || s[i] != '"') return false;
        i++;
        off = np;
        while (i < n) {
            u8 c = s[i++];
            if (c == '"') { len = np - off; return true; }
            if (c < 0x20) return false;
            if (c != '\\') { put(c); continue; }
            if (i >= n) return false;
            switch (s[i++]) {
            case '"': put('"'); break;
            case '\\': put('\\'); break;
            case '/': put('/'); break;
            case 'b': put(8); break;
            case 'f': put(12); break;
            case 'n': put(10); break;
            case 'r': put(13); break;
            case 't': put(9); break;
            case 'u': {
                unsigned v;
                if (!hex4(v)) return false;
                if (v - 0xDC00u < 0x400u) return false; // a low half alone
                if (v - 0xD800u < 0x400u) {
                    unsigned lo;
                    if (i + 1 >= n || s[i] != '\\' || s[i + 1] != 'u') return false;
                    i += 2;
                    if (!hex4(lo) || lo - 0xDC00u >= 0x400u) return false;
                    v = 0x10000 + ((v & 0x3ff) * 0x400) + (lo & 0x3ff);
                }
                if (v < 0x80) put(v);
                else if (v < 0x800) { put(0xC0 + v / 64); put(0x80 + v % 64); }
                else if (v < 0x10000) { put(0xE0 + v / 4096); put(0x80 + v / 64 % 64); put(0x80 + v % 64); }
                else { put(0xF0 + v / 262144); put(0x80 + v / 4096 % 64); put(0x80 + v / 64 % 64); put(0x80 + v % 64); }
                break;
            }
            default: return false;
            }
        }
        return false;
    }
    int value()
    {
        if (i >= n) return -1;
        if (nn == maxn) {
            Node* g = new Node[2 * maxn];
            memcpy(g, node, sizeof(Node) * (size_t)maxn);
            delete[] node;
            node = g;
            maxn *= 2;
        }
        int me = nn++;
        Node& nd = node[me];
        nd = Node { 0, 0, 0, 0, 0, -1, -1, 0 };
        u8 c = s[i];
        switch (c) {
        case 'n': nd.type = 'n'; return lit("null") ? me : -1;
        case 't': nd.type = 't'; return lit("true") ? me : -1;
        case 'f': nd.type = 'f'; return lit("false") ? me : -1;
        case '"': nd.type = '"'; return string(nd.text, nd.len) ? me : -1;
        case '[': case '{': return container(me, c) ? me : -1;
        default:
            if (c != '-' && (u8)(c - '0') >= 10) return -1;
            nd.type = '#';
            return number(nd) ? me : -1;
        }
    }
    bool container(int me, u8 open)
    {
        u8 close = open == '[' ? ']' : '}';
        node[me].type = (char)open;
        i++;
        int last = -1;
        for (;;) {
            if (!ws() || i >= n) return false;
            if (s[i] == close && (last < 0 || jsonc)) { i++; return true; }
            int key = 0, klen = 0;
            if (open == '{') {
                if (!string(key, klen)) return false;
                if (!ws() || i >= n || s[i] != ':') return false;
                i++;
                if (!ws()) return false;
            }
            int v = value();
            if (v < 0) return false;
            node[v].key = key;
            node[v].klen = klen;
            if (open == '{')
                for (int k = node[me].first; k >= 0; k = node[k].next)
                    if (node[k].klen == klen && !memcmp(pool + node[k].key, pool + key, klen)) return false;
            if (last < 0) node[me].first = v;
            else node[last].next = v;
            last = v;
            node[me].count++;
            if (!ws() || i >= n) return false;
            if (s[i] == close) { i++; return true; }
            if (s[i] != ',') return false;
            i++;
        }
    }
    // index of the root, or -1
    int document()
    {
        if (!ws() || i >= n) return -1;
        if (s[i] != '[' && s[i] != '{') return -1;
        int r = value();
        if (r < 0) return -1;
        if (!ws()) return -1;
        if (i < n && s[i] != 0) return -1;
        return r;
    }
};

// ---------------------------------------------------------------- comparison
static inline void checkBytes(const char* a, size_t an, const u8* b, size_t bn, const char* msg)
{
    symx_check(an == bn, msg);
    if (an) symx_check(memcmp(a, b, an) == 0, msg);
}
static inline void checkTree(const Ref& r, int k, const json::value& v)
{
    const Node& nd = r.node[k];
    switch (nd.type) {
    case 'n': symx_check(v.is_null(), "null expected"); break;
    case 't': symx_check(v.is_boolean() && v.as_boolean(), "true expected"); break;
    case 'f': symx_check(v.is_boolean() && !v.as_boolean(), "false expected"); break;
    case '#': {
        symx_check(v.is_number(), "number expected");
        std::string t = v.to_string();
        checkBytes(t.data(), t.size(), r.pool + nd.text, nd.len, "number token changed");
        break;
    }
    case '"': {
        symx_check(v.is_string(), "string expected");
        std::string_view t = v.as_string_view();
        checkBytes(t.data(), t.size(), r.pool + nd.text, nd.len, "string text differs");
        break;
    }
    case '[': {
        symx_check(v.is_array(), "array expected");
        const json::array& a = v.as_array();
        symx_check(a.size() == (size_t)nd.count, "number of elements differs");
        size_t j = 0;
        for (int c = nd.first; c >= 0; c = r.node[c].next) checkTree(r, c, a[j++]);
        break;
    }
    default: {
        symx_check(v.is_object(), "object expected");
        const json::object& o = v.as_object();
        symx_check(o.size() == (size_t)nd.count, "number of members differs");
        for (int c = nd.first; c >= 0; c = r.node[c].next) {
            const json::value* m = o.find_value(std::string((const char*)r.pool + r.node[c].key, r.node[c].klen));
            if (!m) symx_fail("a member is missing");
            checkTree(r, c, *m);
        }
        // every key of the object is one of the document, in ascending order
        const std::string* prev = nullptr;
        for (auto& [key, val] : o) {
            (void)val;
            bool found = false;
            for (int c = nd.first; c >= 0 && !found; c = r.node[c].next) found = r.node[c].klen == (int)key.size() && !memcmp(r.pool + r.node[c].key, key.data(), key.size());
            symx_check(found, "a key that is not in the document");
            if (prev) symx_check(*prev < key, "keys out of order");
            prev = &key;
        }
    }
    }
}
