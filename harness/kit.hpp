// What each C++ type means as a value, independently of the library: enumeration of its objects, the
// shape of their values, and a reference reader.  Used to judge conversions.
#pragma once
#include "trees.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace cf;
using ref::U;
using ref::V;

enum Load
{
    Ok,
    Bad,
    Any
};  // what reading must do: give an object, throw, or unspecified

// everything known about a C++ type independently of the library
template <class T>
struct K;

template <class T>
uint64_t ipow(uint64_t b, T e)
{
    uint64_t r = 1;
    while (e--)
    {
        if (b && r > (1ull << 40) / b)
            return 1ull << 40;  // saturated: only ever compared with the cap
        r *= b;
    }
    return r;
}
static uint64_t words(uint64_t n, unsigned len)
{
    uint64_t r = 0;
    for (unsigned l = 0; l <= len; ++l)
        r += ipow(n, l);
    return r;
}
static std::vector<uint64_t> word(uint64_t n, uint64_t i)
{
    unsigned l = 0;
    while (i >= ipow(n, l))
        i -= ipow(n, l++);
    std::vector<uint64_t> w(l);
    for (auto& k : w)
    {
        k = i % n;
        i /= n;
    }
    return w;
}

// base types
template <>
struct K<int>
{
    static uint64_t count(unsigned) { return 3; }
    static int      make(unsigned, uint64_t i) { return i == 0 ? 0 : i == 1 ? -5 : 2147483647; }
    static V        shape(int x) { return V::integer(x); }
    static bool     same(int a, int b) { return a == b; }
    static Load     load(const V& v, int& x)
    {
        if (v.k != ref::Int)
            return Bad;
        if (v.i < INT32_MIN || v.i > INT32_MAX)
            return Any;
        x = static_cast<int>(v.i);
        return Ok;
    }
    static std::string name() { return "int"; }
};
template <>
struct K<unsigned char> : K<int>
{
    static unsigned char make(unsigned, uint64_t i) { return i == 0 ? 0 : i == 1 ? 1 : 255; }
    static bool          same(unsigned char a, unsigned char b) { return a == b; }
    static Load          load(const V& v, unsigned char& x)
    {
        if (v.k != ref::Int)
            return Bad;
        if (v.i < 0 || v.i > 255)
            return Any;
        x = static_cast<unsigned char>(v.i);
        return Ok;
    }
    static std::string name() { return "unsigned char"; }
};
template <>
struct K<long long>
{
    static uint64_t  count(unsigned) { return 3; }
    static long long make(unsigned, uint64_t i) { return i == 0 ? 1 : i == 1 ? INT64_MIN : INT64_MAX; }
    static V         shape(long long x) { return V::integer(x); }
    static bool      same(long long a, long long b) { return a == b; }
    static Load      load(const V& v, long long& x)
    {
        if (v.k != ref::Int)
            return Bad;
        x = v.i;
        return Ok;
    }
    static std::string name() { return "long long"; }
};
template <>
struct K<double>
{
    static uint64_t count(unsigned) { return 3; }
    static double   make(unsigned, uint64_t i) { return i == 0 ? 3.0 : i == 1 ? -0.5 : 1e15; }
    static V        shape(double x) { return V::floating(x); }
    static bool     same(double a, double b) { return a == b; }
    static Load     load(const V& v, double& x)
    {
        if (v.k != ref::Float)
            return Bad;
        x = static_cast<double>(v.f);
        return Ok;
    }
    static std::string name() { return "double"; }
};
template <>
struct K<bool>
{
    static uint64_t count(unsigned) { return 2; }
    static bool     make(unsigned, uint64_t i) { return i; }
    static V        shape(bool x) { return V::boolean(x); }
    static bool     same(bool a, bool b) { return a == b; }
    static Load     load(const V& v, bool& x)
    {
        if (v.k != ref::Bool)
            return Bad;
        x = v.b;
        return Ok;
    }
    static std::string name() { return "bool"; }
};
static const U texts[] = { U"", U"a", U"\u00e9 text longer than any small buffer", U(1, 0) + U"\"" };
template <class Ch>
struct K<std::basic_string<Ch>>
{
    using T = std::basic_string<Ch>;
    static uint64_t count(unsigned) { return 4; }
    static T        make(unsigned, uint64_t i) { return ref::enc<Ch>(texts[i]); }
    static V        shape(const T& x) { return V::string(ref::dec(x)); }
    static bool     same(const T& a, const T& b) { return a == b; }
    static Load     load(const V& v, T& x)
    {
        if (v.k != ref::Str)
            return Bad;
        x = ref::enc<Ch>(v.s);
        return Ok;
    }
    static std::string name() { return sizeof(Ch) == 1 ? "string" : "wstring"; }
};
template <class Val>
struct KV
{
    static uint64_t count(unsigned) { return 5; }
    static Val      make(unsigned, uint64_t i)
    {
        return to<Val>(i == 0 ? V() : i == 1 ? V::integer(4) : i == 2 ? V::string(U"s") : i == 3 ? V::array({ V::boolean(true) }) : V::object({ { U"k", V() } }));
    }
    static V    shape(const Val& x) { return from(x); }
    static bool same(const Val& a, const Val& b) { return ref::eq(from(a), from(b), ref::Cmp()); }
    static Load load(const V& v, Val& x)
    {
        x = to<Val>(v);
        return Ok;
    }
    static std::string name() { return "value"; }
};
template <>
struct K<json::value> : KV<json::value>
{
};
template <>
struct K<wjson::value> : KV<wjson::value>
{
};

// sequences and sets
template <class C, class E>
struct Seq
{
    static unsigned in(unsigned b) { return b > 1 ? b - 1 : 1; }
    static uint64_t count(unsigned b) { return words(K<E>::count(in(b)), b); }
    static V        shape(const C& c)
    {
        V r = V::array();
        for (auto it = c.begin(); it != c.end(); ++it)
            r.a.push_back(K<E>::shape(*it));
        return r;
    }
    template <class F>
    static Load each(const V& v, F&& put)
    {
        if (v.k == ref::Null)
            return Ok;
        if (v.k == ref::Obj && v.o.empty())
            return Any;
        if (v.k != ref::Arr)
            return Bad;
        Load r = Ok;
        for (auto& x : v.a)
        {
            E    e{};
            Load l = K<E>::load(x, e);
            if (l == Bad)
                return r == Any ? Any : Bad;
            if (l == Any)
                r = Any;
            else
                put(std::move(e));
        }
        return r;
    }
};
#define SEQUENCE(C)                                                                                                                \
    template <class E>                                                                                                             \
    struct K<C<E>> : Seq<C<E>, E>                                                                                                  \
    {                                                                                                                              \
        using S = Seq<C<E>, E>;                                                                                                    \
        static C<E> make(unsigned b, uint64_t i)                                                                                   \
        {                                                                                                                          \
            C<E> c;                                                                                                                \
            for (auto k : word(K<E>::count(S::in(b)), i))                                                                          \
                c.insert(c.end(), K<E>::make(S::in(b), k));                                                                        \
            return c;                                                                                                              \
        }                                                                                                                          \
        static bool same(const C<E>& a, const C<E>& b)                                                                             \
        {                                                                                                                          \
            auto i = a.begin();                                                                                                    \
            auto j = b.begin();                                                                                                    \
            for (; i != a.end() && j != b.end(); ++i, ++j)                                                                         \
                if (!K<E>::same(*i, *j))                                                                                           \
                    return false;                                                                                                  \
            return i == a.end() && j == b.end();                                                                                   \
        }                                                                                                                          \
        static Load load(const V& v, C<E>& x)                                                                                      \
        {                                                                                                                          \
            x.clear();                                                                                                             \
            return S::each(v, [&](E&& e) { x.insert(x.end(), std::move(e)); });                                                    \
        }                                                                                                                          \
        static std::string name() { return #C "<" + K<E>::name() + ">"; }                                                          \
    };
using std::deque;
using std::forward_list;
using std::list;
using std::map;
using std::set;
using std::shared_ptr;
using std::unique_ptr;
using std::unordered_map;
using std::unordered_set;
using std::vector;
SEQUENCE(vector)
SEQUENCE(deque)
SEQUENCE(list)
SEQUENCE(set)
template <class E>
struct K<unordered_set<E>> : Seq<unordered_set<E>, E>
{
    using T = unordered_set<E>;
    using S = Seq<T, E>;
    static T make(unsigned b, uint64_t i)
    {
        T c;
        for (auto k : word(K<E>::count(S::in(b)), i))
            c.insert(K<E>::make(S::in(b), k));
        return c;
    }
    static bool same(const T& a, const T& b) { return a == b; }
    static Load load(const V& v, T& x)
    {
        x.clear();
        return S::each(v, [&](E&& e) { x.insert(std::move(e)); });
    }
    static std::string name() { return "unordered_set<" + K<E>::name() + ">"; }
};
template <class E>
struct K<forward_list<E>> : Seq<forward_list<E>, E>
{
    using T = forward_list<E>;
    using S = Seq<T, E>;
    static T make(unsigned b, uint64_t i)
    {
        T    c;
        auto at = c.before_begin();
        for (auto k : word(K<E>::count(S::in(b)), i))
            at = c.insert_after(at, K<E>::make(S::in(b), k));
        return c;
    }
    static bool same(const T& a, const T& b)
    {
        auto i = a.begin();
        auto j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j)
            if (!K<E>::same(*i, *j))
                return false;
        return i == a.end() && j == b.end();
    }
    static Load load(const V& v, T& x)
    {
        x.clear();
        auto at = x.before_begin();
        return S::each(v, [&](E&& e) { at = x.insert_after(at, std::move(e)); });
    }
    static std::string name() { return "forward_list<" + K<E>::name() + ">"; }
};

// maps: the keys of an object of n members are a run of this list
static const U keys[] = { U"b", U"", U"a", U"\u00e9", U"key longer than the small buffer", U(1, 0) };
template <class C, class S, class E>
struct Map
{
    static unsigned in(unsigned b) { return b > 1 ? b - 1 : 1; }
    static unsigned len(unsigned b) { return b; }
    static uint64_t count(unsigned b) { return words(K<E>::count(in(b)), len(b)) * 6; }
    static C        make(unsigned b, uint64_t i)
    {
        C        c;
        unsigned at = i % 6;
        for (auto k : word(K<E>::count(in(b)), i / 6))
            c.emplace(ref::enc<typename S::value_type>(keys[at++ % 6]), K<E>::make(in(b), k));
        return c;
    }
    static V shape(const C& c)
    {
        std::map<S, V> m;
        for (auto& p : c)
            m.emplace(p.first, K<E>::shape(p.second));
        V r = V::object();
        for (auto& p : m)
            r.o.emplace_back(ref::dec(p.first), p.second);
        return r;
    }
    static bool same(const C& a, const C& b)
    {
        if (a.size() != b.size())
            return false;
        for (auto& p : a)
        {
            auto it = b.find(p.first);
            if (it == b.end() || !K<E>::same(p.second, it->second))
                return false;
        }
        return true;
    }
    static Load load(const V& v, C& x)
    {
        x.clear();
        if (v.k == ref::Null)
            return Ok;
        if (v.k == ref::Arr && v.a.empty())
            return Any;
        if (v.k != ref::Obj)
            return Bad;
        Load r = Ok;
        for (auto& p : v.o)
        {
            E    e{};
            Load l = K<E>::load(p.second, e);
            if (l == Bad)
                return r == Any ? Any : Bad;
            if (l == Any)
                r = Any;
            else
                x.emplace(ref::enc<typename S::value_type>(p.first), std::move(e));
        }
        return r;
    }
};
template <class S, class E>
struct K<map<S, E>> : Map<map<S, E>, S, E>
{
    static std::string name() { return "map<" + K<S>::name() + ", " + K<E>::name() + ">"; }
};
template <class S, class E>
struct K<unordered_map<S, E>> : Map<unordered_map<S, E>, S, E>
{
    static std::string name() { return "unordered_map<" + K<S>::name() + ", " + K<E>::name() + ">"; }
};
template <class E, size_t N>
struct K<std::array<E, N>>
{
    using T = std::array<E, N>;
    static unsigned in(unsigned b) { return b > 1 ? b - 1 : 1; }
    static uint64_t count(unsigned b) { return ipow(K<E>::count(in(b)), N); }
    static T        make(unsigned b, uint64_t i)
    {
        T c;
        for (auto& x : c)
        {
            x = K<E>::make(in(b), i % K<E>::count(in(b)));
            i /= K<E>::count(in(b));
        }
        return c;
    }
    static V shape(const T& c)
    {
        V r = V::array();
        for (auto& x : c)
            r.a.push_back(K<E>::shape(x));
        return r;
    }
    static bool same(const T& a, const T& b)
    {
        for (size_t i = 0; i < N; ++i)
            if (!K<E>::same(a[i], b[i]))
                return false;
        return true;
    }
    static Load load(const V& v, T& x)
    {
        if (N == 0 || v.k == ref::Null || (v.k == ref::Obj && v.o.empty()))
            return Any;
        if (v.k != ref::Arr)
            return Bad;
        Load r = v.a.size() < N ? Any : Ok;
        for (size_t i = 0; i < N && i < v.a.size(); ++i)
        {
            E    e{};
            Load l = K<E>::load(v.a[i], e);
            x[i]   = std::move(e);
            if (l == Bad)
                return Bad;
            if (l == Any)
                r = Any;
        }
        return r;
    }
    static std::string name() { return "array<" + K<E>::name() + ", " + std::to_string(N) + ">"; }
};
template <class P, class E>
struct Ptr
{
    static uint64_t count(unsigned b) { return 1 + K<E>::count(b); }
    static P        make(unsigned b, uint64_t i) { return i ? P(new E(K<E>::make(b, i - 1))) : P(); }
    static V        shape(const P& p) { return p ? K<E>::shape(*p) : V(); }
    static bool     same(const P& a, const P& b) { return !a == !b && (!a || K<E>::same(*a, *b)); }
    static Load     load(const V& v, P& x)
    {
        x = nullptr;
        if (v.k == ref::Null)
            return Ok;
        P    p(new E());
        Load l = K<E>::load(v, *p);
        x = std::move(p);
        return l;
    }
};
template <class E>
struct K<unique_ptr<E>> : Ptr<unique_ptr<E>, E>
{
    static std::string name() { return "unique_ptr<" + K<E>::name() + ">"; }
};
template <class E>
struct K<shared_ptr<E>> : Ptr<shared_ptr<E>, E>
{
    static std::string name() { return "shared_ptr<" + K<E>::name() + ">"; }
};

template <class Val>
static void expect(mc::Ctx& cx, const Val& v, const V& want, const std::string& what)
{
    cx.eval();
    V g = from(v);
    if (!ref::eq(g, want, ref::Cmp()))
        cx.fail(what + " gave " + ref::show(g) + " instead of " + ref::show(want));
}
static std::vector<V> foreign;
static unsigned       budget = 3;
static uint64_t       cap    = 3000;
template <class T>
static unsigned size_budget()  // the largest budget whose object count stays within the cap
{
    unsigned b = budget;
    while (b > 1 && K<T>::count(b) > cap)
        --b;
    return b;
}

template <class Val>
struct JsonOf
{
    using type = json;
    static constexpr bool known = std::is_same<Val, json::value>::value;
};
template <>
struct JsonOf<wjson::value>
{
    using type = wjson;
    static constexpr bool known = true;
};
// the library's reading of `v` (whose reference is `r`) as T, compared with the reference reading
template <class Val, class T>
static void reading(mc::Ctx& cx, const Val& v, const V& r, const std::vector<uint64_t>& olds)
{
    T           want{};
    Load        l    = K<T>::load(r, want);
    std::string what = "reading " + ref::show(r) + " as " + K<T>::name();
    if (l == Any)
        return;
    auto judge = [&](const char* how, Err e, bool equal)
    {
        cx.eval();
        if (l == Ok && e)
            cx.fail(what + how + " ended with " + name(e));
        if (l == Ok && !equal)
            cx.fail(what + how + " gave another object");
        if (l == Bad && !e)
            cx.fail(what + how + " succeeded");
    };
    {
        T    got{};
        auto e = attempt([&] { got = v.template get<T>(); });
        judge("", e, K<T>::same(got, want));
    }
    {
        bool ok = false;
        auto e  = attempt([&] { T t = v; ok = K<T>::same(t, want); });
        judge(" implicitly", e, ok);
    }
    for (auto j : olds)
    {
        T    t  = K<T>::make(size_budget<T>(), j);
        bool ok = v.get(t);
        judge(" into a used variable", ok ? none : other, K<T>::same(t, want));
    }
    if constexpr (JsonOf<Val>::known)
    {
        using J = typename JsonOf<Val>::type;
        typename Val::string_type text;
        if (!attempt([&] { text = J::dump(v, { J::serializer::with_precision(15) }); }))
        {
            std::basic_istringstream<typename Val::char_type> is(text);
            T                                                 t = K<T>::make(size_budget<T>(), olds.back());
            auto                                              e = attempt([&] { is >> J::wrap(t); });
            judge(" from a stream", e, K<T>::same(t, want));
        }
    }
    expect(cx, v, r, what + " changed the value, which");
    cx.outcome(mc::mix(shape_hash(r) * 3 + l));
}

template <class Val, class T>
static void object(mc::Ctx& cx, uint64_t i)
{
    const T     obj  = K<T>::make(size_budget<T>(), i);
    const V     r    = K<T>::shape(obj);
    std::string what = "making a value from " + K<T>::name() + " " + ref::show(r);
    Val         v(obj);
    expect(cx, v, r, what);
    {
        Val w = obj;
        expect(cx, w, r, what);
        for (auto& old : { V(), V::boolean(true), V::string(U"old"), V::array({ V::integer(1), V(), V(), V(), V(), V() }), V::object({ { U"", V() }, { U"old", V::integer(1) } }) })
        {
            Val x = to<Val>(old);
            x     = obj;
            expect(cx, x, r, what + " assigned over " + ref::show(old));
        }
        Val m(K<T>::make(size_budget<T>(), i));
        expect(cx, m, r, what + " from a temporary");
        T    keep = K<T>::make(size_budget<T>(), i);
        Val  n(keep);
        expect(cx, n, r, what + " from a variable");
        if (!K<T>::same(keep, obj))
            cx.fail(what + " changed the variable");
        Val el(configor::value_constant::array);
        el.push_back(obj);
        expect(cx, el, V::array({ r }), what + " as an element");
        el = K<T>::make(size_budget<T>(), i);
        expect(cx, el, r, what + " assigned as a temporary");
        el       = Val(configor::value_constant::object);
        Val& mem = el[typename Val::string_type(1, typename Val::char_type('k'))];
        mem      = Val(configor::value_constant::array);
        mem[1]   = obj;
        mem[0]   = K<T>::make(size_budget<T>(), i);
        expect(cx, el, V::object({ { U"k", V::array({ r, r }) } }), what + " inside a value");
        if constexpr (JsonOf<Val>::known)
        {
            using J = typename JsonOf<Val>::type;
            std::basic_ostringstream<typename Val::char_type> os;
            typename Val::string_type                         text;
            auto e = attempt([&] { text = J::dump(v); }), f = attempt([&] { os << J::wrap(obj); });
            if (e != f || (!e && os.str() != text))
                cx.fail(what + " wrapped into a stream wrote " + mc::shows(os.str()) + ", the value is dumped as " + mc::shows(text));
        }
    }
    uint64_t n = K<T>::count(size_budget<T>());
    reading<Val, T>(cx, v, r, { 0, n - 1, n / 2, i, (i * 7 + 3) % n, (i * 31 + 17) % n, n / 3 });
}
template <class Val, class T>
static void misread(mc::Ctx& cx, uint64_t i)
{
    const V&  r = foreign[i];
    const Val v = to<Val>(r);
    uint64_t  n = K<T>::count(size_budget<T>());
    reading<Val, T>(cx, v, r, { 0, n - 1, n / 2 });
}

