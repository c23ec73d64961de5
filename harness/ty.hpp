#include "types.hpp"
template <typename T, typename F> static bool tried(F f)
{
    try {
        T r = f();
        (void)r;
        return true;
    }
    catch (const json::exception&) {
        return false;
    }
    catch (const std::exception&) {
        symx_fail("as<T>() threw something else than json::exception");
    }
    return false;
}
// params: first and last type, template
static void run()
{
    M m = tmpl(2);
    withType(pickType(), [&](auto* tp) {
        typedef std::remove_pointer_t<decltype(tp)> T;
        const json::value c = mk(m);
        json::value l = mk(m), r = mk(m);
        bool is = c.is<T>();
        same(c, m, "is<T>() changed the value");
        symx_check(l.is<T>() == is && std::move(r).is<T>() == is, "is<T>() depends on how the value is passed");
        symx_observe(is);
        symx_reach(is ? "fits" : "refused");
        symx_check(tried<T>([&]() -> T { return c.as<T>(); }) == is, "is<T>() and as<T>() of a const value disagree");
        same(c, m, "as<T>() changed a const value");
        symx_check(tried<T>([&]() -> T { return l.as<T>(); }) == is, "is<T>() and as<T>() of an lvalue disagree");
        same(l, m, "as<T>() changed an lvalue");
        symx_check(tried<T>([&]() -> T { return std::move(r).as<T>(); }) == is, "is<T>() and as<T>() of an rvalue disagree");
        if constexpr (!std::is_same_v<T, json::value>) {
            if (m.t == '[' || m.t == '{') {
                // through the containers
                const json::array a { c };
                json::object o { { "k", c } };
                symx_check(a.template all<T>() == is && o.template all<T>() == is && json::value(a).template all<T>() == is, "all<T>() disagrees with is<T>()");
            }
        }
        json::value v = mk(m);
        v = json::value(); // still usable
    });
    symx_reach("end");
}
// C16: as<T>() succeeds exactly for the trees that have the type's shape, and gives their content
static void runFrom()
{
    M m = tmpl(2);
    withType(pickType(), [&](auto* tp) {
        typedef std::remove_pointer_t<decltype(tp)> T;
        bool fits = R<T>::fits(m);
        symx_observe(fits);
        symx_reach(fits ? "fits" : "refused");
        for (int how = 0; how < 3; how++) {
            json::value v = mk(m, how);
            const json::value& c = v;
            bool got = tried<T>([&]() -> T {
                if (how == 0) {
                    T t = c.as<T>();
                    symx_check(R<T>::eq(t, m), "the converted object differs");
                    same(c, m, "the conversion changed the value");
                    return t;
                }
                if (how == 1) {
                    T t = std::move(v).as<T>();
                    symx_check(R<T>::eq(t, m), "the object converted from an rvalue differs");
                    return t;
                }
                T t = json::value(c).as<T>();
                symx_check(R<T>::eq(t, m), "the object converted from a temporary differs");
                return t;
            });
            symx_check(got == fits, fits ? "a value of the type's shape is refused" : "a value of another shape is converted");
        }
        if constexpr ( !std::is_same_v<T, json::value>) {
            // through the containers' own conversions
            if constexpr (R<T>::container == '[')
                if (m.t == '[') {
                    const json::value v = mk(m);
                    json::array a = v.as_array();
                    symx_check(tried<T>([&]() -> T { T t = v.as_array().template as<T>(); symx_check(R<T>::eq(t, m), "the object converted from an array differs"); return t; }) == fits, "json::array converts differently");
                    symx_check(tried<T>([&]() -> T { T t = std::move(a).template as<T>(); symx_check(R<T>::eq(t, m), "the object converted from an array rvalue differs"); return t; }) == fits, "a json::array rvalue converts differently");
                }
            if constexpr (R<T>::container == '{')
                if (m.t == '{') {
                    const json::value v = mk(m);
                    json::object a = v.as_object();
                    symx_check(tried<T>([&]() -> T { T t = v.as_object().template as<T>(); symx_check(R<T>::eq(t, m), "the object converted from a json::object differs"); return t; }) == fits, "json::object converts differently");
                    symx_check(tried<T>([&]() -> T { T t = std::move(a).template as<T>(); symx_check(R<T>::eq(t, m), "the object converted from a json::object rvalue differs"); return t; }) == fits, "a json::object rvalue converts differently");
                }
        }
    });
    symx_reach("end");
}
// numbers of enums that are no enumerator's are refused (C18); printing floating-point numbers is not encoded
template <typename T> static bool writable(T*, const M& m)
{
    if constexpr (std::is_same_v<T, Col> || std::is_same_v<T, std::optional<Col>> || std::is_same_v<T, t1_13>) return m.t != '#' || intOf<int>(m.s) == 0 || intOf<int>(m.s) == 5 || intOf<int>(m.s) == -7;
    else if constexpr (std::is_same_v<T, Big>) return m.t != '#' || intOf<int>(m.s) == 1 || intOf<int>(m.s) == 2;
    else if constexpr (std::is_floating_point_v<T> || std::is_same_v<T, t1_7> || std::is_same_v<T, t1_12>) return m.t != '#';
    else return true;
}
// C16: an object converted to a value and back is equal, the source is left alone
static void runThere()
{
    M m = tmpl(2);
    withType(pickType(), [&](auto* tp) {
        typedef std::remove_pointer_t<decltype(tp)> T;
        symx_assume(R<T>::fits(m) && writable(tp, m));
        const json::value c = mk(m);
        auto make = [&]() -> T {
            T t = c.as<T>();
            symx_check(R<T>::eq(t, m), "the converted object differs");
            return t;
        };
        auto judge = [&](const json::value& v, const char* msg) {
            M t = toM(v);
            symx_check(R<T>::fits(t), msg);
            symx_check(R<T>::eq(v.as<T>(), m), "the object does not come back");
            symx_check(R<T>::eq(make(), t), msg);
        };
        if constexpr (!MoveOnly<T>::value) {
            T x = make();
            T y = x; // shares what is behind a shared_ptr
            const T& cx = x;
            judge(json::value(cx), "the value of a const object differs");
            symx_check(R<T>::eq(x, m) && R<T>::eq(y, m), "converting a const object modified it");
            judge(json::value(x), "the value of an object differs");
            symx_check(R<T>::eq(x, m) && R<T>::eq(y, m), "converting an lvalue modified it");
            judge(json::value(std::move(y)), "the value of an rvalue differs");
            symx_check(R<T>::eq(x, m), "converting an rvalue modified a shared object");
            json::array a;
            a.emplace_back(x);
            json::object o;
            o["k"] = x;
            o.emplace("l", cx);
            judge(a[0], "the element of an object differs");
            judge(o.at("k"), "the member of an object differs");
            judge(o.at("l"), "the emplaced member of an object differs");
            symx_check(R<T>::eq(x, m), "converting an lvalue modified it");
            if constexpr (R<T>::container == '[') {
                judge(json::value(json::array(x)), "the array of an object differs");
                judge(json::value(json::array(T(x))), "the array of an rvalue differs");
            }
            if constexpr (R<T>::container == '{') {
                judge(json::value(json::object(x)), "the json::object of an object differs");
                judge(json::value(json::object(T(x))), "the json::object of an rvalue differs");
            }
            symx_check(R<T>::eq(x, m), "converting an lvalue modified it");
        }
        else {
            judge(json::value(make()), "the value of an rvalue differs");
        }
    });
    symx_reach("end");
}
