// Shared by the harnesses about values: a reference tree, values built from it, observation of values.
#pragma once
#include "hx.hpp"
#include <map>
#include <vector>

struct M;
typedef std::vector<M> Ms;
struct Mem;
typedef std::vector<Mem> Mems;
struct M {
    char t = 'n'; // n t f # " [ {
    std::string s;
    Ms el;
    Mems mem; // in ascending order of the keys, as unsigned bytes
    M() = default;
    M(char type, std::string text = {}) : t(type), s(std::move(text)) {}
    M(const M&);
    M(M&&) noexcept;
    M& operator=(const M&);
    M& operator=(M&&) noexcept;
    ~M();
    M& slot(const std::string& key);  // creates
    const M* find(const std::string& key) const;
    bool drop(const std::string& key);
};
struct Mem {
    std::string key;
    M val;
};
inline M::M(const M&) = default;
inline M::M(M&&) noexcept = default;
inline M& M::operator=(const M& r) { M c(r); return *this = std::move(c); }
inline M& M::operator=(M&& r) noexcept
{
    if (this == &r) return *this;
    char nt = r.t;
    std::string ns = std::move(r.s);
    Ms ne = std::move(r.el);
    Mems nm = std::move(r.mem);
    t = nt; s.swap(ns); el.swap(ne); mem.swap(nm);
    return *this;
}
inline M::~M() = default;
// <0 0 >0 by unsigned bytes, then length
static inline int cmpKey(const std::string& a, const std::string& b)
{
    size_t n = a.size() < b.size() ? a.size() : b.size();
    int c = n ? memcmp(a.data(), b.data(), n) : 0;
    if (c) return c < 0 ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
inline M& M::slot(const std::string& key)
{
    size_t i = 0;
    for (; i < mem.size(); i++) {
        int c = cmpKey(key, mem[i].key);
        if (!c) return mem[i].val;
        if (c < 0) break;
    }
    mem.insert(mem.begin() + (long)i, Mem { key, M() });
    return mem[i].val;
}
inline const M* M::find(const std::string& key) const
{
    for (auto& m : mem)
        if (!cmpKey(key, m.key)) return &m.val;
    return nullptr;
}
inline bool M::drop(const std::string& key)
{
    for (size_t i = 0; i < mem.size(); i++)
        if (!cmpKey(key, mem[i].key)) { mem.erase(mem.begin() + (long)i); return true; }
    return false;
}
static inline bool sameText(const std::string& a, const std::string& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size()) == 0); }
static inline bool same(const M& a, const M& b)
{
    if (a.t != b.t || !sameText(a.s, b.s) || a.el.size() != b.el.size() || a.mem.size() != b.mem.size()) return false;
    for (size_t i = 0; i < a.el.size(); i++)
        if (!same(a.el[i], b.el[i])) return false;
    for (size_t i = 0; i < a.mem.size(); i++)
        if (!sameText(a.mem[i].key, b.mem[i].key) || !same(a.mem[i].val, b.mem[i].val)) return false;
    return true;
}
static inline M num(long long v)
{
    char b[24];
    int i = 24;
    unsigned long long u = v < 0 ? 0 - (unsigned long long)v : (unsigned long long)v;
    do b[--i] = (char)('0' + u % 10); while (u /= 10);
    if (v < 0) b[--i] = '-';
    return M('#', std::string(b + i, 24 - i));
}
static inline M str(std::string s) { return M('"', std::move(s)); }

// ---------------------------------------------------------------- templates
// Parameters from `first` on: a document in which string contents are meant literally (up to a concrete
// quote); '*' stands for one of the small values kind() gives. Parameters above 255 are symbolic bytes.
static const int KINDS = 14;
static inline M kind(unsigned k)
{
    M m;
    switch (k) {
    case 0: return M('n');
    case 1: return M('t');
    case 2: return M('f');
    case 3: return str("");
    case 4: return str("1");
    case 5: return num(0);
    case 6: return num(1);
    case 7: return M('#', "-1.5e3");
    case 8: return M('[');
    case 9: m.t = '['; m.el.push_back(num(1)); return m;
    case 10: return M('{');
    case 11: m.t = '{'; m.slot("a") = num(1); return m;
    case 12: m.t = '['; m.el.push_back(M('[')); return m;
    default: m.t = '{'; m.slot("") = M('n'); return m;
    }
}
struct Tmpl {
    Codes c;
    int n, i = 0;
    u8* buf;
    Tmpl(int f, int len) : c(f, len), n(c.n), buf(new u8[c.n + 1]) { fillDoc(buf, c); }
    ~Tmpl() { delete[] buf; }
    int cur() const { return i < n ? c.p[i] : 0; }
    std::string text()
    {
        std::string s;
        i++;
        for (; cur() != '"'; i++) {
            if (i >= n) symx_fail("harness: open string in a template");
            s.push_back((char)buf[i]);
        }
        i++;
        return s;
    }
    M value()
    {
        M m;
        switch (cur()) {
        case 'n': i++; return M('n');
        case 't': i++; return M('t');
        case 'f': i++; return M('f');
        case '*': i++; return kind(symx_pick(KINDS, "kind"));
        case '"': m.t = '"'; m.s = text(); return m;
        case '[':
            m.t = '[';
            for (i++; cur() != ']';) {
                m.el.push_back(value());
                if (cur() == ',') i++;
            }
            i++;
            return m;
        case '{':
            m.t = '{';
            for (i++; cur() != '}';) {
                std::string k = text();
                i++; // :
                M v = value();
                m.slot(k) = v;
                if (cur() == ',') i++;
            }
            i++;
            return m;
        default: {
            int b = i;
            while (i < n && cur() != ',' && cur() != ']' && cur() != '}' && cur() != ' ') i++;
            Ref r(buf + b, i - b, false);
            Node nd;
            if (i == b || (buf[b] != '-' && (u8)(buf[b] - '0') >= 10) || !r.number(nd) || r.i != r.n) symx_assume(false);
            return M('#', std::string((const char*)buf + b, i - b));
        }
        }
    }
};
static inline M tmpl(int lenParam)
{
    int n = (int)symx_param(lenParam);
    Tmpl t(lenParam + 1, n);
    return t.value();
}

// ---------------------------------------------------------------- values
static inline json::value mk(const M& m, int style = 0)
{
    using V = json::value;
    switch (m.t) {
    case 'n': return style == 1 ? V(nullptr) : V();
    case 't': return V(true);
    case 'f': return V(false);
    case '#': return V(V::value_type::number, m.s);
    case '"': return style == 1 ? V(std::string_view(m.s)) : V(m.s);
    case '[':
        if (style == 2) {
            std::vector<V> c;
            for (auto& e : m.el) c.push_back(mk(e, style));
            return V(json::array(std::move(c)));
        }
        else {
            json::array a;
            for (auto& e : m.el) style == 1 ? (void)a.push_back(mk(e, style)) : (void)a.emplace_back(mk(e, style));
            return V(std::move(a));
        }
    default:
        if (style == 2) {
            std::map<std::string, V> c;
            for (auto& e : m.mem) c.emplace(e.key, mk(e.val, style));
            return V(json::object(std::move(c)));
        }
        else {
            json::object o;
            for (auto& e : m.mem) style == 1 ? (void)(o[e.key] = mk(e.val, style)) : (void)o.emplace(e.key, mk(e.val, style));
            return V(std::move(o));
        }
    }
}
static inline void same(const json::value& v, const M& m, const char* msg);
static inline void same(const json::array& a, const Ms& m, const char* msg)
{
    symx_check(a.size() == m.size(), msg);
    symx_check(a.empty() == m.empty(), msg);
    size_t i = 0;
    for (const json::value& e : a) same(e, m[i++], msg);
    symx_check(i == m.size(), msg);
}
static inline void same(const json::object& o, const Mems& m, const char* msg)
{
    symx_check(o.size() == m.size(), msg);
    symx_check(o.empty() == m.empty(), msg);
    size_t i = 0;
    for (const auto& [k, v] : o) {
        symx_check(i < m.size(), msg);
        symx_check(sameText(k, m[i].key), msg);
        same(v, m[i++].val, msg);
    }
}
// v is exactly m
static inline void same(const json::value& v, const M& m, const char* msg)
{
    using T = json::value::value_type;
    T want = m.t == 'n' ? T::null : m.t == '#' ? T::number : m.t == '"' ? T::string : m.t == '[' ? T::array : m.t == '{' ? T::object : T::boolean;
    symx_check(v.type() == want && v.valid(), msg);
    symx_check(v.is_null() == (m.t == 'n') && v.is_boolean() == (m.t == 't' || m.t == 'f') && v.is_number() == (m.t == '#') && v.is_string() == (m.t == '"') && v.is_array() == (m.t == '[')
                   && v.is_object() == (m.t == '{'), msg);
    switch (m.t) {
    case 'n': break;
    case 't': symx_check(v.as_boolean(), msg); break;
    case 'f': symx_check(!v.as_boolean(), msg); break;
    case '#': symx_check(sameText(v.to_string(), m.s), msg); break;
    case '"': {
        std::string_view t = v.as_string_view();
        symx_check(t.size() == m.s.size() && (t.empty() || memcmp(t.data(), m.s.data(), t.size()) == 0), msg);
        break;
    }
    case '[': same(v.as_array(), m.el, msg); break;
    default: same(v.as_object(), m.mem, msg);
    }
}

// the tree a value holds
static inline M toM(const json::value& v)
{
    using T = json::value::value_type;
    M m;
    switch (v.type()) {
    case T::null: return m;
    case T::boolean: return M(v.as_boolean() ? 't' : 'f');
    case T::number: return M('#', v.to_string());
    case T::string: return str(v.as_string());
    case T::array:
        m.t = '[';
        for (const json::value& e : v.as_array()) m.el.push_back(toM(e));
        return m;
    case T::object:
        m.t = '{';
        for (const auto& [k, e] : v.as_object()) m.slot(k) = toM(e);
        return m;
    default: symx_fail("an invalid value");
    }
    return m;
}

// ---------------------------------------------------------------- serialised text
static inline void refString(std::string& o, const std::string& s)
{
    o += '"';
    for (char ch : s) {
        u8 c = (u8)ch;
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case 8: o += "\\b"; break;
        case 12: o += "\\f"; break;
        case 10: o += "\\n"; break;
        case 13: o += "\\r"; break;
        case 9: o += "\\t"; break;
        default:
            if (c < 0x20) {
                u8 l = c & 15;
                o += "\\u00";
                o += c < 16 ? '0' : '1';
                o += (char)(l + (l < 10 ? '0' : 'a' - 10));
            }
            else o += ch;
        }
    }
    o += '"';
}
// indent < 0: no whitespace; tight: empty containers as [] and {}
static inline void refText(std::string& o, const M& m, int indent, bool tight, int depth = 0)
{
    auto line = [&](int d) {
        if (indent < 0) return;
        o += '\n';
        o.append((size_t)(indent * d), ' ');
    };
    switch (m.t) {
    case 'n': o += "null"; return;
    case 't': o += "true"; return;
    case 'f': o += "false"; return;
    case '#': o += m.s; return;
    case '"': refString(o, m.s); return;
    }
    size_t k = 0, n = m.t == '[' ? m.el.size() : m.mem.size();
    o += m.t;
    for (; k < n; k++) {
        if (k) o += ',';
        line(depth + 1);
        if (m.t == '[') refText(o, m.el[k], indent, tight, depth + 1);
        else {
            refString(o, m.mem[k].key);
            o += ':';
            if (indent >= 0) o += ' ';
            refText(o, m.mem[k].val, indent, tight, depth + 1);
        }
    }
    if (n || !tight) line(depth);
    o += m.t == '[' ? ']' : '}';
}
static inline std::string refText(const M& m, int indent = -1, bool tight = false)
{
    std::string o;
    refText(o, m, indent, tight);
    return o;
}
