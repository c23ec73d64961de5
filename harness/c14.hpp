// Looking up an element by keys and positions. The includer defines TYPES_HERE (a list of default types).
#define HX_GROUP 0
#include "types.hpp"
using V = json::value;
static const M* down(const M* m, const std::string& k) { return m && m->t == '{' ? m->find(k) : nullptr; }
static const M* down(const M* m, const char* k) { return down(m, std::string(k)); }
static const M* down(const M* m, size_t p) { return m && m->t == '[' && p < m->el.size() ? &m->el[symx_conc(p)] : nullptr; }
static const M* down(const M* m, int p) { return down(m, (size_t)p); }

template <typename T> struct Dflt {
    static T make() { return T {}; }
    static bool is(const T& x) { return x == T {}; }
};
template <> struct Dflt<int> {
    static int make() { return 424242; }
    static bool is(int x) { return x == 424242; }
};
template <> struct Dflt<std::string> {
    static std::string make() { return "the default, in more than fifteen bytes"; }
    static bool is(const std::string& x) { return sameText(x, make()); }
};
template <> struct Dflt<V> {
    static V make() { return V { { "d", "dflt" } }; }
    static bool is(const V& x) { M m('{'); m.slot("d") = str("dflt"); same(x, m, "another default"); return true; }
};
template <> struct Dflt<json::array> {
    static json::array make() { return json::array { 7 }; }
    static bool is(const json::array& x) { same(x, Ms { num(7) }, "another default"); return true; }
};
template <> struct Dflt<json::object> {
    static json::object make() { return json::object { { "d", 7 } }; }
    static bool is(const json::object& x) { M m('{'); m.slot("d") = num(7); same(x, m.mem, "another default"); return true; }
};
template <> struct Dflt<std::vector<int>> {
    static std::vector<int> make() { return { 4, 2 }; }
    static bool is(const std::vector<int>& x) { return x.size() == 2 && x[0] == 4 && x[1] == 2; }
};
// defaults which are texts of another type
struct Lit {};
struct View {};
template <typename T> struct Of { typedef T type; };
template <> struct Of<Lit> { typedef std::string type; };
template <> struct Of<View> { typedef std::string type; };

template <typename T, typename S, typename... Ks> static void getFrom(const S& s, const M* at, const char* msg, const Ks&... keys)
{
    typedef typename Of<T>::type U;
    bool hit = at && R<U>::fits(*at);
    auto judge = [&](const U& got, auto&& dflt) { symx_check(hit ? R<U>::eq(got, *at) : dflt(got), msg); };
    if constexpr (std::is_same_v<T, Lit>) {
        auto got = s.get(keys..., "literal");
        static_assert(std::is_same_v<decltype(got), U>);
        judge(got, [](const U& x) { return sameText(x, "literal"); });
    }
    else if constexpr (std::is_same_v<T, View>) {
        std::string text = "text of a view, long enough";
        std::string_view view = text;
        std::string got = s.get(keys..., view);
        text.assign(27, '#');
        judge(got, [](const U& x) { return sameText(x, "text of a view, long enough"); });
    }
    else if constexpr (std::is_same_v<T, bool>) {
        bool d = symx_pick(2, "default");
        auto got = s.get(keys..., d);
        static_assert(std::is_same_v<decltype(got), U>);
        judge(got, [&](const U& x) { return x == d; });
    }
    else {
        const U d = Dflt<U>::make();
        auto got = s.get(keys..., d);
        static_assert(std::is_same_v<decltype(got), U>);
        judge(got, [](const U& x) { return Dflt<U>::is(x); });
        symx_check(Dflt<U>::is(d), "the default is changed");
        judge(s.get(keys..., Dflt<U>::make()), [](const U& x) { return Dflt<U>::is(x); });
    }
}
template <typename T, typename K, typename... Ks> static void look(const V& v, const M& m, K key, Ks... keys)
{
    typedef typename Of<T>::type U;
    const M* at = down(&m, key);
    ((at = down(at, keys)), ...);
    getFrom<T>(v, at, "get() gives something else", key, keys...);
    constexpr bool named = !std::is_integral_v<K>;
    if constexpr (named) {
        if (m.t == '{') getFrom<T>(v.as_object(), at, "get() of the object gives something else", key, keys...);
    }
    else {
        if (m.t == '[') getFrom<T>(v.as_array(), at, "get() of the array gives something else", (size_t)key, keys...);
    }
    // the other ways, step by step
    const V* p = &v;
    const M* q = &m;
    auto walk = [&](auto& k) {
        if (!p) return;
        const V* n;
        bool has, thrown = false;
        q = down(q, k);
        const V* byAt = nullptr;
        if constexpr (std::is_integral_v<std::decay_t<decltype(k)>>) {
            n = p->find_value((size_t)k);
            has = p->contains((size_t)k);
            symx_check(p->exists((size_t)k) == has, "exists() and contains() differ");
            try { byAt = &p->at((size_t)k); } catch (const std::exception&) { thrown = true; }
            auto f = p->template find<U>((size_t)k);
            symx_check(f.has_value() == (q && R<U>::fits(*q)), "find() disagrees");
            if (f) symx_check(R<U>::eq(*f, *q), "find() gives something else");
        }
        else {
            n = p->find_value(k);
            has = p->contains(k);
            symx_check(p->exists(k) == has, "exists() and contains() differ");
            try { byAt = &p->at(k); } catch (const std::exception&) { thrown = true; }
            auto f = p->template find<U>(k);
            symx_check(f.has_value() == (q && R<U>::fits(*q)), "find() disagrees");
            if (f) symx_check(R<U>::eq(*f, *q), "find() gives something else");
        }
        symx_check((n != nullptr) == (q != nullptr), "find_value() disagrees");
        symx_check(has == (q != nullptr), "contains() disagrees");
        symx_check(thrown == !q, "at() disagrees");
        symx_check(byAt == n, "at() gives another element");
        p = n;
    };
    walk(key);
    (walk(keys), ...);
    if (p) { same(*p, *q, "another element"); symx_reach("found"); }
    else symx_reach("missing");
    same(v, m, "looking up changed the value");
}
// params: type, style of the keys, pattern, number of steps, length of the keys, template
struct Key {
    char text[308];
    uint64_t pos;
};
static Key keyAt(int i, bool named)
{
    Key k {};
    if (named) {
        size_t n = (size_t)symx_param(4);
        if (n > 8) memset(k.text, 'k', n - 1);
        symx_symbolic(k.text + (n > 8 ? n - 1 : 0), n > 8 ? 1 : n, "key");
        if (symx_param(1))
            for (size_t j = n > 8 ? n - 1 : 0; j < n; j++) symx_assume(k.text[j] != 0);
    }
    else symx_symbolic(&k.pos, symx_param(1) ? 4 : 8, "position");
    (void)i;
    return k;
}
template <typename T, int Style, int Pattern, int Steps, typename... Ks> static void chain(const V& v, const M& m, Ks... keys)
{
    constexpr int i = (int)sizeof...(Ks);
    if constexpr (i == Steps) look<T>(v, m, keys...);
    else {
        constexpr bool named = (Pattern >> i) & 1;
        Key k = keyAt(i, named);
        if constexpr (named && Style) chain<T, Style, Pattern, Steps>(v, m, keys..., (const char*)k.text);
        else if constexpr (named) chain<T, Style, Pattern, Steps>(v, m, keys..., std::string(k.text, (size_t)symx_param(4)));
        else if constexpr (Style) chain<T, Style, Pattern, Steps>(v, m, keys..., (int)(uint32_t)k.pos);
        else chain<T, Style, Pattern, Steps>(v, m, keys..., (size_t)k.pos);
    }
}
template <typename T, int Style, int Steps, int Pattern = 0> static void patterns(const V& v, const M& m)
{
    if constexpr (Pattern < (1 << Steps)) {
        if (symx_param(2) == Pattern) return chain<T, Style, Pattern, Steps>(v, m);
        patterns<T, Style, Steps, Pattern + 1>(v, m);
    }
    else symx_fail("harness: no such pattern");
}
template <typename T> static void perType(const V& v, const M& m)
{
    bool deep = std::is_same_v<T, int> || std::is_same_v<T, Lit> || std::is_same_v<T, V>;
    int n = (int)symx_param(3);
    if (symx_param(1)) {
        if (n == 1) return patterns<T, 1, 1>(v, m);
        if (n == 2) return patterns<T, 1, 2>(v, m);
    }
    else {
        if (n == 1) return patterns<T, 0, 1>(v, m);
        if (n == 2) return patterns<T, 0, 2>(v, m);
        if constexpr (std::is_same_v<T, int> || std::is_same_v<T, Lit> || std::is_same_v<T, V>)
            if (n == 3) return patterns<T, 0, 3>(v, m);
        if constexpr (std::is_same_v<T, int>) {
            // some of the longer chains
            if (n == 5) {
                switch (symx_param(2)) {
                case 0: return chain<T, 0, 0, 5>(v, m);
                case 31: return chain<T, 0, 31, 5>(v, m);
                case 10: return chain<T, 0, 10, 5>(v, m);
                case 21: return chain<T, 0, 21, 5>(v, m);
                case 7: return chain<T, 0, 7, 5>(v, m);
                }
            }
        }
    }
    (void)deep;
    symx_fail("harness: no such chain");
}
template <typename... Ts> static void byType(const V& v, const M& m)
{
    int64_t k = symx_param(0);
    bool done = false;
    ((done || (k-- == 0 ? (perType<Ts>(v, m), done = true) : false)), ...);
    if (!done) symx_fail("harness: no such type");
}

extern "C" void lookups()
{
    uint64_t before = symx_heap_live();
    {
        M m = tmpl(5);
        V v = mk(m, 1);
        byType<TYPES_HERE>(v, m);
    }
    symx_check(symx_heap_live() == before, "memory is leaked");
    symx_reach("end");
}
