// Every accessor on every kind of value: what it accepts, and what is left behind.
#include "types.hpp"
using V = json::value;
using A = json::array;
using O = json::object;

static bool hollow(const M& m) { return m.t == 'n' || ((m.t == '"') && m.s.empty()) || (m.t == '[' && m.el.empty()) || (m.t == '{' && m.mem.empty()); }
static M made(char t) { M m; m.t = t; return m; }
// what a mutating access as t ([ or {) works on
static bool opened(M& m, char t)
{
    if (m.t == t) return true;
    if (!hollow(m)) return false;
    m = made(t);
    return true;
}
// f on v: 1 returned, 0 threw json::exception, -1 threw out_of_range
template <typename F> static int tried(F f)
{
    try {
        f();
        return 1;
    }
    catch (const json::exception& e) {
        symx_check(e.what() && *e.what(), "an exception without a text");
        return 0;
    }
    catch (const std::out_of_range&) {
        return -1;
    }
    catch (const std::exception&) {
        symx_fail("another exception than json::exception");
    }
    return 2;
}
template <typename T> static void reads(const V& c, V& v, const M& m, int how)
{
    bool want = R<T>::fits(m);
    int got = tried([&] {
        T t = how == 0 ? c.as<T>() : how == 1 ? v.as<T>() : how == 2 ? static_cast<T>(c) : static_cast<T>(v);
        symx_check(R<T>::eq(t, m), "another content is read");
    });
    symx_check(got == want, want ? "a value of the type is refused" : "a value of another type is read");
}
static const int CONSTS = 35, OPS = 62;
// after: the tree v must be left with. Returns what tried() must give
static int access(int op, const V& c, V& v, M& m, const std::string& key, uint64_t pos, int& got)
{
    int n = m.t == '[' ? (int)m.el.size() : m.t == '{' ? (int)m.mem.size() : 0;
    const M was = m;
    auto num = [&](bool fits) { return m.t == '#' && fits; };
    auto has = [&] { return m.find(key) != nullptr; };
    auto atRes = [&](char t, bool there) { return m.t != t ? 0 : there ? 1 : -1; };
    switch (op) {
    // const accesses
    case 0: got = tried([&] { symx_check(c.as_boolean() == (was.t == 't'), "another boolean"); }); return m.t == 't' || m.t == 'f';
    case 1: got = tried([&] { symx_check(R<int>::eq(c.as_integer(), was), "another number"); }); return num(intFits<int>(m.s));
    case 2: got = tried([&] { symx_check(R<unsigned>::eq(c.as_unsigned(), was), "another number"); }); return num(intFits<unsigned>(m.s));
    case 3: got = tried([&] { symx_check(R<long>::eq(c.as_long(), was), "another number"); }); return num(intFits<long>(m.s));
    case 4: got = tried([&] { symx_check(R<unsigned long>::eq(c.as_unsigned_long(), was), "another number"); }); return num(intFits<unsigned long>(m.s));
    case 5: got = tried([&] { symx_check(R<long long>::eq(c.as_long_long(), was), "another number"); }); return num(intFits<long long>(m.s));
    case 6: got = tried([&] { symx_check(R<unsigned long long>::eq(c.as_unsigned_long_long(), was), "another number"); }); return num(intFits<unsigned long long>(m.s));
    case 7: got = tried([&] { symx_check(R<float>::eq(c.as_float(), was), "another number"); }); return R<float>::fits(m);
    case 8: got = tried([&] { symx_check(R<double>::eq(c.as_double(), was), "another number"); }); return R<double>::fits(m);
    case 9: got = tried([&] { symx_check(R<long double>::eq(c.as_long_double(), was), "another number"); }); return R<long double>::fits(m);
    case 10: got = tried([&] { symx_check(sameText(c.as_string(), was.s), "another text"); }); return m.t == '"';
    case 11: got = tried([&] { symx_check(sameText(std::string(c.as_string_view()), was.s), "another text"); }); return m.t == '"';
    case 12: got = tried([&] { same(c.as_array(), was.el, "another array"); }); return m.t == '[';
    case 13: got = tried([&] { same(c.as_object(), was.mem, "another object"); }); return m.t == '{';
    case 14: got = tried([&] { same(c.at(size_t(pos)), was.el[pos], "another element"); }); return atRes('[', pos < m.el.size());
    case 15: got = tried([&] { same(c.at(key), *was.find(key), "another member"); }); return atRes('{', has());
    case 16:
        symx_assume(m.t != '[' || pos < m.el.size()); // not checked
        got = tried([&] { same(c[size_t(pos)], was.el[pos], "another element"); });
        return m.t == '[';
    case 17: got = tried([&] { V r = c | O { { key, 1 } }; m = was; m.slot(key) = ::num(1); same(r, m, "another result"); m = was; }); return was.t == '{';
    case 18: got = tried([&] { O o { { key, 1 } }; V r = c | o; m = was; m.slot(key) = ::num(1); same(r, m, "another result"); m = was; }); return was.t == '{';
    case 19: got = tried([&] { V r = c + A { key }; m = was; m.el.push_back(str(key)); same(r, m, "another result"); m = was; }); return was.t == '[';
    case 20: got = tried([&] { A o { key }; V r = c + o; m = was; m.el.push_back(str(key)); same(r, m, "another result"); m = was; }); return was.t == '[';
    case 21: got = tried([&] { symx_check(bool(c) == (was.t == 't'), "another boolean"); }); return m.t == 't' || m.t == 'f';
    case 22: got = tried([&] { (void)static_cast<std::nullptr_t>(c); }); return m.t == 'n';
    case 23: got = tried([&] { (void)static_cast<std::monostate>(c); }); return m.t == 'n';
    case 24: got = tried([&] { same(static_cast<A>(c), was.el, "another array"); }); return m.t == '[';
    case 25: got = tried([&] { same(static_cast<O>(c), was.mem, "another object"); }); return m.t == '{';
    case 26: got = tried([&] { symx_check(sameText(std::string(static_cast<std::string_view>(c)), was.s), "another text"); }); return m.t == '"';
    // never throw
    case 27: got = tried([&] { symx_check(!c.contains(key) == !(was.t == '{' && has()) && c.exists(key) == c.contains(key), "contains differs"); }); return 1;
    case 28: got = tried([&] { symx_check(c.contains(size_t(pos)) == (was.t == '[' && pos < was.el.size()) && c.exists(size_t(pos)) == c.contains(size_t(pos)), "contains differs"); }); return 1;
    case 29: got = tried([&] { symx_check(c.find_value(key) ? was.t == '{' && has() : !(was.t == '{' && has()), "find_value differs"); }); return 1;
    case 30: got = tried([&] { symx_check(!!c.find_value(size_t(pos)) == (was.t == '[' && pos < was.el.size()), "find_value differs"); }); return 1;
    case 31: got = tried([&] { symx_check(c.empty() == hollow(was), "empty differs"); }); return 1;
    case 32: got = tried([&] { (void)c.type_name(); (void)c.value_info(); (void)c.to_string(); (void)c.dumps(1); }); return 1;
    case 33: got = tried([&] { symx_check(c.get(key, "dflt") == (was.t == '{' && has() && was.find(key)->t == '"' ? was.find(key)->s : std::string("dflt")), "get differs"); }); return 1;
    case 34: got = tried([&] { symx_check(c.all<V>() == (was.t == '[' || was.t == '{'), "all differs"); }); return 1;
    // accesses through a value that may change
    case 35: { bool ok = opened(m, '['); got = tried([&] { same(v.as_array(), m.el, "another array"); }); return ok; }
    case 36: { bool ok = opened(m, '{'); got = tried([&] { same(v.as_object(), m.mem, "another object"); }); return ok; }
    case 37: {
        bool ok = opened(m, '{');
        got = tried([&] { v[key]; });
        if (ok) m.slot(key);
        return ok;
    }
    case 38: {
        bool ok = opened(m, '{');
        got = tried([&] { v[std::string(key)] = 5; });
        if (ok) m.slot(key) = ::num(5);
        return ok;
    }
    case 39: {
        bool ok = opened(m, '[');
        symx_assume(!ok || pos < m.el.size()); // not checked
        got = tried([&] { v[size_t(pos)] = key; });
        if (ok) m.el[pos] = str(key);
        return ok;
    }
    case 40: {
        bool ok = opened(m, '['), there = ok && pos < m.el.size();
        got = tried([&] { symx_check(v.erase(size_t(pos)) == there, "erase returns something else"); });
        if (there) m.el.erase(m.el.begin() + (long)pos);
        return ok;
    }
    case 41: {
        bool ok = opened(m, '{'), there = ok && m.find(key);
        got = tried([&] { symx_check(v.erase(key) == there, "erase returns something else"); });
        if (there) m.drop(key);
        return ok;
    }
    case 42: {
        bool ok = opened(m, '[');
        got = tried([&] { v.emplace(key); });
        if (ok) m.el.push_back(str(key));
        return ok;
    }
    case 43: {
        bool ok = opened(m, '{');
        got = tried([&] { v.emplace(key, 3); });
        if (ok) m.slot(key) = ::num(3);
        return ok;
    }
    case 44: {
        bool ok = opened(m, '{');
        got = tried([&] { v |= O { { key, 1 } }; });
        if (ok) m.slot(key) = ::num(1);
        return ok;
    }
    case 45: {
        O o { { key, 1 } };
        bool ok = opened(m, '{');
        got = tried([&] { v |= o; });
        if (ok) m.slot(key) = ::num(1);
        return ok;
    }
    case 46: {
        bool ok = opened(m, '[');
        got = tried([&] { v += A { key }; });
        if (ok) m.el.push_back(str(key));
        return ok;
    }
    case 47: {
        A o { key };
        bool ok = opened(m, '[');
        got = tried([&] { v += o; });
        if (ok) m.el.push_back(str(key));
        return ok;
    }
    case 48: {
        bool ok = opened(m, '{');
        got = tried([&] { V r = std::move(v) | O { { key, 1 } }; M w = m; w.slot(key) = ::num(1); same(r, w, "another result"); });
        if (ok) v = mk(m);
        return ok;
    }
    case 49: {
        bool ok = opened(m, '[');
        got = tried([&] { V r = std::move(v) + A { key }; M w = m; w.el.push_back(str(key)); same(r, w, "another result"); });
        if (ok) v = mk(m);
        return ok;
    }
    // what lies within: the second access is on the member or element
    case 50: {
        bool ok = opened(m, '{');
        bool in = false;
        if (ok) in = opened(m.slot(key), '{');
        got = tried([&] { v[key]["in"] = true; });
        if (in) m.slot(key).slot("in") = M('t');
        return ok && in;
    }
    case 51: {
        bool ok = m.t == '[' && pos < m.el.size();
        symx_assume(ok);
        bool in = opened(m.el[pos], '[');
        got = tried([&] { v[size_t(pos)].emplace(2); });
        if (in) m.el[pos].el.push_back(::num(2));
        return in;
    }
    case 52: { got = tried([&] { (void)c.at(key).as_string(); }); return atRes('{', has()) < 1 ? atRes('{', has()) : m.find(key)->t == '"'; }
    // conversions of every kind
    case 53: reads<std::vector<json::value>>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    case 54: reads<std::vector<std::string>>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    case 55: reads<std::map<std::string, int>>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    case 56: reads<std::array<json::value, 1>>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    case 57: reads<Col>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    case 58: reads<Pt>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    case 59: reads<std::pair<std::string, json::value>>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    case 60: reads<std::variant<int, bool, std::vector<int>>>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    default: (void)n; reads<std::unordered_map<std::string, json::value>>(c, v, m, (int)(pos & 3)); got = 1; return 1;
    }
}
// params: first and last accessor, length of the key, template
extern "C" void one()
{
    M m = tmpl(3);
    int lo = (int)symx_param(0), hi = (int)symx_param(1), k = (int)symx_param(2);
    int op = lo + (int)symx_pick((unsigned)(hi - lo + 1), "accessor");
    std::string key(k, 0);
    symx_symbolic(key.data(), k, "key");
    uint64_t pos = 0;
    symx_symbolic(&pos, 8, "pos");
    int got = 0;
    const V c = mk(m);
    V v = mk(m, 1);
    const M was = m;
    int want = access(op, c, v, m, key, pos, got);
    symx_observe(got);
    symx_reach(got == 1 ? "allowed" : "refused");
    symx_check(got == want, want == 1 ? "an access of the right type is refused" : want ? "another exception" : "an access of the wrong type is allowed");
    same(c, was, "a const access changed the value");
    same(v, m, got == 1 ? "the access changed something else" : "a refused access changed the value");
    symx_check(v == mk(m), "the value is not equal to what it was");
    symx_reach("end");
}
// a mutating access, then any. params: first and last of the first access, template
extern "C" void two()
{
    M m = tmpl(2);
    int lo = (int)symx_param(0), hi = (int)symx_param(1);
    int op1 = lo + (int)symx_pick((unsigned)(hi - lo + 1), "first"), op2 = (int)symx_pick(OPS, "second");
    std::string key(1, 0);
    symx_symbolic(key.data(), 1, "key");
    uint64_t pos = symx_pick(2, "pos");
    int got = 0;
    V v = mk(m);
    int want = access(op1, V(), v, m, key, pos, got);
    symx_check(got == want, want == 1 ? "an access of the right type is refused" : want ? "another exception" : "an access of the wrong type is allowed");
    same(v, m, got == 1 ? "the access changed something else" : "a refused access changed the value");
    const V c = v;
    const M was = m;
    got = 0;
    want = access(op2, c, v, m, key, pos, got);
    symx_observe(got);
    symx_reach(got == 1 ? "allowed" : "refused");
    symx_check(got == want, want == 1 ? "an access of the right type is refused" : want ? "another exception" : "an access of the wrong type is allowed");
    same(c, was, "a const access changed the value");
    same(v, m, got == 1 ? "the access changed something else" : "a refused access changed the value");
    symx_reach("end");
}
