// C14: typed access returns the stored datum or reports the mismatch.
#include "trees.hpp"
#include <cfloat>
#include <climits>
#include <map>
#include <string_view>
using namespace cf;
using ref::V;
using C = configor::value_constant;

static std::vector<V> subjects;

template <class Val>
static void same(mc::Ctx& cx, const V& r, const Val& v, const std::string& what)
{
    if (!ref::eq(from(v), r, ref::Cmp()))
        cx.fail(what + " changed the value " + ref::show(r) + " to " + ref::show(from(v)));
}
// read v as T in every way; `fits`: T matches the kind, `want`: what must come out, `old`: two distinct other values
template <class Val, class T>
static void read(mc::Ctx& cx, const V& r, const char* tn, bool fits, const T& want, const T& old)
{
    auto        v = to<Val>(r);
    const Val&  c = v;
    std::string what = std::string("reading ") + ref::show(r) + " as " + tn;
    auto        need = [&](const char* how, Err e, bool equal)
    {
        cx.eval();
        if (fits ? e != none || !equal : e != type_error)
            cx.fail(what + " " + how + (e ? std::string(" ended with ") + name(e) : std::string(equal ? " succeeded" : " gave another datum")));
        same(cx, r, v, what);
    };
    {
        T    got = old;
        auto e   = attempt([&] { got = v.template get<T>(); });
        need("by value", e, got == want);
        got = old;
        e   = attempt([&] { got = c.template get<T>(); });
        need("by value from a const value", e, got == want);
    }
    {
        T    got = old;
        auto e   = attempt([&] { got = c.template get<const T>(); });
        need("by const value", e, got == want);
    }
    {
        T    got = old;
        bool ok  = c.get(got);
        cx.eval();
        if (ok != fits || !(got == (fits ? want : old)))
            cx.fail(what + " into a variable " + (ok ? "succeeded" : "failed") + (got == old ? " and left it" : got == want ? " and set it" : " and set it to something else"));
        same(cx, r, v, what);
    }
    {
        T    got = old;
        auto e   = attempt([&] { T t = c; got = std::move(t); });
        need("implicitly", e, got == want);
        e = attempt([&] { got = static_cast<T>(v); });
        need("by a cast", e, got == want);
    }
    cx.outcome(mc::hash(tn, strlen(tn)) * 3 + fits + static_cast<uint64_t>(r.k) * 100);
}
// references and pointers to the stored type
template <class Val, class T>
static void alias(mc::Ctx& cx, const V& r, const char* tn, bool fits, const T& want, const T& changed)
{
    auto        v = to<Val>(r);
    const Val&  c = v;
    std::string what = std::string("access to ") + ref::show(r) + " as " + tn;
    const T*    ps[] = { v.template get_ptr<T*>(), v.template get_ptr<const T*>(), c.template get_ptr<const T*>(), v.template get<T*>(), c.template get<const T*>(), v.template get<const T*>() };
    for (auto* p : ps)
    {
        cx.eval();
        if ((p != nullptr) != fits)
            cx.fail(what + " by pointer gave " + (p ? "a pointer" : "a null pointer"));
        if (fits && (p != ps[0] || !(*p == want)))
            cx.fail(what + " by pointer does not give the stored datum");
    }
    const T* q  = &want;
    bool     ok = c.get(q);
    if (!ok || (q != nullptr) != fits || (fits && q != ps[0]))
        cx.fail(what + " into a pointer variable");
    const T *a = nullptr, *b = nullptr, *d = nullptr;
    auto     e1 = attempt([&] { a = &v.template get<T&>(); }), e2 = attempt([&] { b = &v.template get<const T&>(); }), e3 = attempt([&] { d = &c.template get<const T&>(); });
    Err      we = fits ? none : type_error;
    cx.eval(3);
    if (e1 != we || e2 != we || e3 != we)
        cx.fail(what + " by reference ended with " + name(e1) + ", " + name(e2) + ", " + name(e3));
    if (fits && (a != ps[0] || b != a || d != a))
        cx.fail(what + " by reference does not alias the stored datum");
    same(cx, r, v, what);
    if (fits)
    {
        v.template get<T&>() = changed;
        if (!(c.template get<T>() == changed) || !(*c.template get_ptr<const T*>() == changed))
            cx.fail(what + ": a change through a reference is lost");
        *v.template get_ptr<T*>() = want;
        same(cx, r, v, what + " and changing it back");
    }
    cx.outcome(mc::hash(tn, strlen(tn)) * 5 + fits + static_cast<uint64_t>(r.k) * 100);
}
template <class Val, class T>
static void integral(mc::Ctx& cx, const V& r, const char* tn)
{
    bool fits = r.k == ref::Int;
    if (fits && (static_cast<__int128>(r.i) < static_cast<__int128>(std::numeric_limits<T>::min()) || static_cast<__int128>(r.i) > static_cast<__int128>(std::numeric_limits<T>::max())))
        return;  // does not fit the target
    T w = fits ? static_cast<T>(r.i) : T(0);
    read<Val, T>(cx, r, tn, fits, w, w == T(33) ? T(34) : T(33));
}
template <class Val, class T>
static void real(mc::Ctx& cx, const V& r, const char* tn)
{
    bool fits = r.k == ref::Float;
    T    w    = fits ? static_cast<T>(static_cast<double>(r.f)) : T(0);
    if (fits && !(w == w))
        return;
    read<Val, T>(cx, r, tn, fits, w, w == T(33.5) ? T(34.5) : T(33.5));
}
template <class Val>
static void matrix(mc::Ctx& cx, const V& r)
{
    using S = typename Val::string_type;
    using A = typename Val::array_type;
    using O = typename Val::object_type;
    using Ch = typename Val::char_type;
    cx.note("reading " + ref::show(r) + " as each type in each way");
    auto v = to<Val>(r);
    S    ws, os(3, Ch('q')), ss(5, Ch('r'));
    if (r.k == ref::Str)
    {
        auto t = ref::enc<Ch>(r.s);
        ws     = S(t.begin(), t.end());
    }
    A wa, oa{ Val(1), Val(2), Val(3), Val(4), Val(5), Val(6), Val(7) };
    if (r.k == ref::Arr)
        for (auto& x : r.a)
            wa.push_back(to<Val>(x));
    O wo, oo;
    oo[os] = Val(9);
    if (r.k == ref::Obj)
        wo = *v.data().object;
    read<Val, bool>(cx, r, "bool", r.k == ref::Bool, r.b, !r.b);
    integral<Val, char>(cx, r, "char");
    integral<Val, signed char>(cx, r, "signed char");
    integral<Val, unsigned char>(cx, r, "unsigned char");
    integral<Val, short>(cx, r, "short");
    integral<Val, unsigned short>(cx, r, "unsigned short");
    integral<Val, int>(cx, r, "int");
    integral<Val, unsigned>(cx, r, "unsigned");
    integral<Val, long>(cx, r, "long");
    integral<Val, unsigned long>(cx, r, "unsigned long");
    integral<Val, long long>(cx, r, "long long");
    integral<Val, unsigned long long>(cx, r, "unsigned long long");
    integral<Val, char16_t>(cx, r, "char16_t");
    integral<Val, wchar_t>(cx, r, "wchar_t");
    real<Val, double>(cx, r, "double");
    if (r.k != ref::Float || std::fabs(static_cast<double>(r.f)) < FLT_MAX || std::isinf(static_cast<double>(r.f)))
        real<Val, float>(cx, r, "float");
    real<Val, long double>(cx, r, "long double");
    read<Val, S>(cx, r, "string", r.k == ref::Str, ws, ws == os ? ss : os);
    read<Val, A>(cx, r, "array", r.k == ref::Arr || r.k == ref::Null, wa, oa);
    read<Val, O>(cx, r, "object", r.k == ref::Obj || r.k == ref::Null, wo, oo);
    // a value as a value
    {
        Val x = v.template get<Val>(), y(5);
        if (!y.is_integer() || !v.get(y))
            cx.fail("reading as a value failed");
        same(cx, r, x, "reading as a value");
        same(cx, r, y, "reading into a value");
        cx.eval(2);
    }
    alias<Val, bool>(cx, r, "bool", r.k == ref::Bool, r.b, !r.b);
    alias<Val, typename Val::integer_type>(cx, r, "integer", r.k == ref::Int, r.i, r.i ^ 1);
    if (!(r.k == ref::Float && r.f != r.f))
        alias<Val, typename Val::float_type>(cx, r, "float", r.k == ref::Float, static_cast<double>(r.f), 0.125);
    alias<Val, S>(cx, r, "string", r.k == ref::Str, ws, os);
    alias<Val, A>(cx, r, "array", r.k == ref::Arr, wa, oa);
    alias<Val, O>(cx, r, "object", r.k == ref::Obj, wo, oo);
}
// a read as a C++ container: null is empty, other kinds are refused
template <class Val>
static void containers(mc::Ctx& cx, const V& r)
{
    using S = typename Val::string_type;
    const auto v = to<Val>(r);
    auto       e = attempt([&] { if (!v.template get<std::vector<int>>().empty() && r.k == ref::Null) cx.fail("null is not read as an empty vector"); });
    bool       ints = r.k == ref::Arr;
    for (auto& x : r.a)
        ints = ints && x.k == ref::Int;
    bool ok = r.k == ref::Null || ints || (r.k == ref::Obj && r.o.empty());
    if ((e == none) != ok || (e != none && e != type_error && e != invalid_key))
        cx.fail("reading " + ref::show(r) + " as a vector of int ended with " + name(e));
    bool vals = r.k == ref::Obj;
    for (auto& m : r.o)
        vals = vals && m.second.k == ref::Int;
    e  = attempt([&] { if (!(v.template get<std::map<S, int>>().size() == (r.k == ref::Null ? 0 : r.o.size()))) cx.fail("a map of another size"); });
    ok = r.k == ref::Null || vals || (r.k == ref::Arr && r.a.empty());
    if ((e == none) != ok || (e != none && e != type_error && e != invalid_iterator))
        cx.fail("reading " + ref::show(r) + " as a map of int ended with " + name(e));
    cx.eval(2);
}

template <class Val, class T>
static void make(mc::Ctx& cx, const char* tn, const V& want, T x)
{
    cx.eval(4);
    Val a(x);
    Val b;
    b = x;
    Val c(configor::value_constant::array);
    c     = Val(std::move(x));
    const T y = a.template get<T>();
    Val d(y);
    for (auto* v : { &a, &b, &c, &d })
    {
        auto g = from(*v);
        if (!ref::eq(g, want, ref::Cmp()) || (want.k == ref::Float && std::signbit(static_cast<double>(g.f)) != std::signbit(static_cast<double>(want.f))))
            cx.fail(std::string("a value made from the ") + tn + " " + ref::show(want) + " is " + ref::show(g));
    }
    cx.outcome(mc::hash(tn, strlen(tn)) * 7 + shape_hash(want));
}
template <class T>
static void make_int(mc::Ctx& cx, const char* tn, uint64_t i)
{
    __int128 x;
    if (sizeof(T) <= 2)
    {
        x = static_cast<__int128>(i) - 32768;
        if (x < std::numeric_limits<T>::min() || x > std::numeric_limits<T>::max())
        {
            x = static_cast<__int128>(i);
            if (x > std::numeric_limits<T>::max())
                return;
        }
    }
    else
    {
        if (i >= trees::integer_count)
            return;
        x = trees::integer_of(i);
        if (x < static_cast<__int128>(std::numeric_limits<T>::min()) || x > static_cast<__int128>(std::numeric_limits<T>::max()))
            return;
    }
    make<json::value, T>(cx, tn, V::integer(static_cast<int64_t>(x)), static_cast<T>(x));
    make<wjson::value, T>(cx, tn, V::integer(static_cast<int64_t>(x)), static_cast<T>(x));
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id     = "C14";
    ck.part   = "main";
    ck.mem_mb = 0;
    bool th   = mc::is_thorough(argc, argv);
    ck.rule   = "every value of a set covering all kinds read as every type in every way; every datum of the small types and the boundary data of the large ones made into values; a case is distinct by type, kind "
                "and outcome";
    ck.assumptions = { "an integer read into a type that cannot hold it, and an unsigned integer beyond the integer type, are outside the property" };
    static trees::Space sp;
    sp.leaves = { V(), V::boolean(true), V::boolean(false), V::integer(0), V::integer(-7), V::floating(0.5), V::floating(3.0), V::string(U""), V::string(U"a"), V::string(U"a \u00e9 string longer than the small buffer") };
    sp.keys   = { U"", U"a" };
    sp.build(th ? 4 : 3);
    for (uint64_t i = 0; i < sp.size(); ++i)
        subjects.push_back(sp[i]);
    for (uint64_t i = 0; i < trees::integer_count; i += th ? 1 : 7)
        subjects.push_back(V::integer(trees::integer_of(i)));
    for (int64_t x : { INT64_MAX, INT64_MIN, int64_t(INT_MAX), int64_t(INT_MIN), int64_t(UINT_MAX), int64_t(SHRT_MAX), int64_t(SHRT_MIN), int64_t(127), int64_t(-128), int64_t(255), int64_t(65535), int64_t(1), int64_t(-1) })
        subjects.push_back(V::integer(x));
    for (double x : { 0.0, -0.0, 1.0, -1.0, 1e300, -1e300, 1e30, 5e-324, DBL_MAX, 0.1, double(INFINITY), -double(INFINITY), 9007199254740993.0, 16777217.0 })
        subjects.push_back(V::floating(x));
    for (auto& u : { ref::U(1, 0), ref::U(U"a") + ref::U(2, 0) + U"b", ref::U(U"true"), ref::U(U"1"), ref::U(U"null"), ref::U(300, U'x') })
        subjects.push_back(V::string(u));
    ck.add("matrix", subjects.size(), "each of the values (every tree of weight up to " + std::to_string(th ? 4 : 3) + ", boundary scalars) read as 20 types by value, reference, pointer, variable and conversion, narrow and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               matrix<json::value>(cx, subjects[i]);
               matrix<wjson::value>(cx, subjects[i]);
               containers<json::value>(cx, subjects[i]);
               containers<wjson::value>(cx, subjects[i]);
           });
    ck.add("made from integers", 98304, "every datum of the 8 and 16 bit types, boundary data of the 32 and 64 bit types", [](mc::Ctx& cx, uint64_t i)
           {
               make_int<char>(cx, "char", i);
               make_int<signed char>(cx, "signed char", i);
               make_int<unsigned char>(cx, "unsigned char", i);
               make_int<short>(cx, "short", i);
               make_int<unsigned short>(cx, "unsigned short", i);
               make_int<char16_t>(cx, "char16_t", i);
               make_int<char32_t>(cx, "char32_t", i);
               make_int<wchar_t>(cx, "wchar_t", i);
               make_int<int>(cx, "int", i);
               make_int<unsigned>(cx, "unsigned", i);
               make_int<long>(cx, "long", i);
               make_int<unsigned long>(cx, "unsigned long", i);
               make_int<long long>(cx, "long long", i);
               make_int<unsigned long long>(cx, "unsigned long long", i);
               if (i < 2)
               {
                   make<json::value, bool>(cx, "bool", V::boolean(i), i);
                   make<wjson::value, bool>(cx, "bool", V::boolean(i), i);
               }
           });
    ck.add("made from floats", trees::float_count, "floats of every exponent with 12 mantissas", [](mc::Ctx& cx, uint64_t i)
           {
               double d = trees::float_of(i);
               if (!(d == d))
                   return;
               make<json::value, double>(cx, "double", V::floating(d), d);
               make<wjson::value, long double>(cx, "long double", V::floating(d), d);
               if (std::fabs(d) <= FLT_MAX)
               {
                   float f = static_cast<float>(d);
                   make<json::value, float>(cx, "float", V::floating(f), f);
               }
           });
    static const std::vector<char> alpha = { 'a', '\0', '"', '\xc3', '\n' };
    ck.add("made from strings", mc::words_upto(alpha.size(), th ? 6 : 5) + 300 + mc::big_sizes, "every string of up to 5 (6) of 5 characters, of every length below 300 and of 12 lengths up to 131073, as string, moved string, view, pointer, array and assignment", [th](mc::Ctx& cx, uint64_t i)
           {
               std::string s;
               uint64_t    words = mc::words_upto(alpha.size(), th ? 6 : 5);
               if (i < words)
                   for (auto k : mc::word(alpha.size(), i))
                       s += alpha[k];
               else
                   for (uint64_t k = 0; k < mc::size_at(i - words, 300); ++k)
                       s += static_cast<char>('a' + k % 26);
               for (unsigned pad : { 0u, 20u })
               {
                   std::string  t = s + std::string(pad, 'p');
                   std::wstring w;
                   for (char c : t)
                       w += static_cast<wchar_t>(static_cast<unsigned char>(c));
                   std::string  cut(t.c_str());
                   std::wstring wcut(w.c_str());
                   auto         check = [&](const char* how, const json::value& v, const std::string& x)
                   {
                       cx.eval();
                       if (!v.is_string() || *v.data().string != x || v.get<std::string>() != x)
                           cx.fail(std::string("a value made from the ") + how + " " + mc::show(x) + " is " + mc::show(v.is_string() ? *v.data().string : "not a string"));
                   };
                   auto checkw = [&](const char* how, const wjson::value& v, const std::wstring& x)
                   {
                       cx.eval();
                       if (!v.is_string() || *v.data().string != x || v.get<std::wstring>() != x)
                           cx.fail(std::string("a wide value made from the ") + how + " " + mc::showw(x) + " is another string");
                   };
                   check("string", json::value(t), t);
                   check("moved string", json::value(std::string(t)), t);
                   check("view", json::value(std::string_view(t)), t);
                   check("pointer", json::value(t.c_str()), cut);
                   check("char pointer", json::value(&t[0]), cut);
                   checkw("string", wjson::value(w), w);
                   checkw("pointer", wjson::value(w.c_str()), wcut);
                   json::value v = 5;
                   v             = t;
                   check("assigned string", v, t);
                   v = json::array{ 1 };
                   v = t.c_str();
                   check("assigned pointer", v, cut);
                   json::value o;
                   o["k"] = t;
                   check("member string", o["k"], t);
                   char arr[32] = {};
                   std::memcpy(arr, t.data(), std::min<size_t>(t.size(), 31));
                   if (t.size() < 32)
                       check("array", json::value(arr), cut);
                   const char carr[8] = { 'c', 'o', 'n', 's', 't', 0, 'x', 0 };
                   check("const array", json::value(carr), "const");
                   wchar_t warr[32] = {};
                   std::copy(w.begin(), w.begin() + std::min<size_t>(w.size(), 31), warr);
                   if (t.size() < 32)
                       checkw("array", wjson::value(warr), wcut);
                   cx.outcome(mc::hash(t));
                   cx.note("string data " + mc::show(t) + " made into values in 12 ways");
               }
           });
    ck.add("kinds", 7, "values made from each kind constant, null pointers and literals", [](mc::Ctx& cx, uint64_t i)
           {
               static const C::type  ks[] = { C::null, C::boolean, C::integer, C::floating, C::string, C::array, C::object };
               static const V        ws[] = { V(), V::boolean(false), V::integer(0), V::floating(0), V::string(U""), V::array(), V::object() };
               json::value           a(ks[i]), b = json::array{ 1, "x" };
               b = ks[i];
               json::value n(nullptr), m, k = json::object{ { "a", 1 } };
               k = nullptr;
               cx.eval(5);
               if (!ref::eq(from(a), ws[i], ref::Cmp()) || !ref::eq(from(b), ws[i], ref::Cmp()))
                   cx.fail("a value made from the kind " + std::string(configor::to_string(ks[i])) + " is " + ref::show(from(a)) + " and " + ref::show(from(b)));
               if (!n.is_null() || !m.is_null() || !k.is_null())
                   cx.fail("a null pointer does not make a null value");
               cx.note(std::string("made from the kind ") + configor::to_string(ks[i]));
               cx.outcome(i);
           });
    return mc::run(ck, argc, argv);
}
