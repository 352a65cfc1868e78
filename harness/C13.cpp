// C13: comparison operators are mutually consistent and structural.
#include "trees.hpp"
#include <climits>
using namespace cf;
using ref::V;

// reference comparison: -1, 0, 1, or 2 for unordered
static int number(const V& a, const V& b)
{
    if (a.k == ref::Int && b.k == ref::Int)
        return a.i < b.i ? -1 : a.i > b.i;
    // long double holds every int64 and every double exactly
    long double x = a.k == ref::Int ? static_cast<long double>(a.i) : a.f, y = b.k == ref::Int ? static_cast<long double>(b.i) : b.f;
    return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
}
static_assert(std::numeric_limits<long double>::digits >= 64, "the reference needs a wide long double");
static bool is_num(const V& v) { return v.k == ref::Int || v.k == ref::Float; }
template <class Ch>
static int text(const ref::U& a, const ref::U& b)
{
    auto x = ref::enc<Ch>(a), y = ref::enc<Ch>(b);
    size_t n = std::min(x.size(), y.size());
    for (size_t i = 0; i < n; ++i)
    {
        auto p = static_cast<typename std::make_unsigned<Ch>::type>(x[i]), q = static_cast<typename std::make_unsigned<Ch>::type>(y[i]);
        if (p != q)
            return p < q ? -1 : 1;
    }
    return x.size() < y.size() ? -1 : x.size() > y.size();
}
static bool eq(const V& a, const V& b)
{
    if (is_num(a) && is_num(b))
        return number(a, b) == 0;
    if (a.k != b.k)
        return false;
    switch (a.k)
    {
    case ref::Bool:
        return a.b == b.b;
    case ref::Str:
        return a.s == b.s;
    case ref::Arr:
        if (a.a.size() != b.a.size())
            return false;
        for (size_t i = 0; i < a.a.size(); ++i)
            if (!eq(a.a[i], b.a[i]))
                return false;
        return true;
    case ref::Obj:
        if (a.o.size() != b.o.size())
            return false;
        for (size_t i = 0; i < a.o.size(); ++i)
            if (a.o[i].first != b.o[i].first || !eq(a.o[i].second, b.o[i].second))
                return false;
        return true;
    default:
        return true;
    }
}
template <class Ch>
static bool lt(const V& a, const V& b)
{
    if (is_num(a) && is_num(b))
        return number(a, b) == -1;
    if (a.k != b.k)
        return false;
    switch (a.k)
    {
    case ref::Bool:
        return !a.b && b.b;
    case ref::Str:
        return text<Ch>(a.s, b.s) < 0;
    case ref::Arr:
        for (size_t i = 0; i < a.a.size() && i < b.a.size(); ++i)
        {
            if (lt<Ch>(a.a[i], b.a[i]))
                return true;
            if (lt<Ch>(b.a[i], a.a[i]))
                return false;
        }
        return a.a.size() < b.a.size();
    case ref::Obj:
        for (size_t i = 0; i < a.o.size() && i < b.o.size(); ++i)
        {
            int c = text<Ch>(a.o[i].first, b.o[i].first);
            if (c)
                return c < 0;
            if (lt<Ch>(a.o[i].second, b.o[i].second))
                return true;
            if (lt<Ch>(b.o[i].second, a.o[i].second))
                return false;
        }
        return a.o.size() < b.o.size();
    default:
        return false;
    }
}
template <class L, class R>
static unsigned ops(const L& a, const R& b)
{
    return unsigned(a == b) | unsigned(a != b) << 1 | unsigned(a < b) << 2 | unsigned(a <= b) << 3 | unsigned(a > b) << 4 | unsigned(a >= b) << 5;
}
template <class Ch>
static unsigned want(const V& a, const V& b)
{
    bool e = eq(a, b), l = lt<Ch>(a, b), g = lt<Ch>(b, a);
    return unsigned(e) | unsigned(!e) << 1 | unsigned(l) << 2 | unsigned(!g) << 3 | unsigned(g) << 4 | unsigned(!l) << 5;
}
static std::string opnames(unsigned o)
{
    static const char* n[] = { "==", "!=", "<", "<=", ">", ">=" };
    std::string        s;
    for (int k = 0; k < 6; ++k)
        if (o >> k & 1)
            s += std::string(s.empty() ? "" : " ") + n[k];
    return s;
}
template <class Val>
static void compare(mc::Ctx& cx, const V& ra, const V& rb, const Val& a, const Val& b)
{
    unsigned g = ops(a, b), w = want<typename Val::char_type>(ra, rb);
    cx.eval();
    cx.outcome(g + 1);
    if (g != w)
        cx.fail(ref::show(ra) + " and " + ref::show(rb) + " compare " + opnames(g) + ", they must compare " + opnames(w));
    auto ka = from(a), kb = from(b);
    if (cx.verbose)
        cx.note(ref::show(ra) + " and " + ref::show(rb) + " compare " + opnames(g));
}
template <class Val, class T>
static void scalar(mc::Ctx& cx, const V& rv, const Val& v, const V& rx, T x, const char* type)
{
    using Ch = typename Val::char_type;
    unsigned g = ops(v, x), w = want<Ch>(rv, rx), h = ops(x, v), u = want<Ch>(rx, rv), m = ops(v, Val(x));
    cx.eval(2);
    if (g != w || h != u || m != w)
        cx.fail(ref::show(rv) + " and the " + type + " " + ref::show(rx) + " compare " + opnames(g) + " and " + opnames(h) + " the other way round, they must compare " + opnames(w) + " and " + opnames(u));
    cx.outcome(g + 100);
}
template <class Val>
static void scalars(mc::Ctx& cx, const V& rv)
{
    Val v = to<Val>(rv);
    for (int x : { 0, 1, -1, 7, INT_MAX })
    {
        scalar<Val, int>(cx, rv, v, V::integer(x), x, "int");
        scalar<Val, long>(cx, rv, v, V::integer(x), x, "long");
        scalar<Val, long long>(cx, rv, v, V::integer(x), x, "long long");
        scalar<Val, short>(cx, rv, v, V::integer(static_cast<short>(x)), static_cast<short>(x), "short");
        scalar<Val, signed char>(cx, rv, v, V::integer(static_cast<signed char>(x)), static_cast<signed char>(x), "signed char");
        scalar<Val, unsigned>(cx, rv, v, V::integer(static_cast<unsigned>(x)), static_cast<unsigned>(x), "unsigned");
        scalar<Val, unsigned char>(cx, rv, v, V::integer(static_cast<unsigned char>(x)), static_cast<unsigned char>(x), "unsigned char");
        scalar<Val, double>(cx, rv, v, V::floating(x), x, "double");
        scalar<Val, double>(cx, rv, v, V::floating(x + 0.5), x + 0.5, "double");
        scalar<Val, float>(cx, rv, v, V::floating(static_cast<float>(x)), static_cast<float>(x), "float");
    }
    for (long long x : { LLONG_MAX, LLONG_MIN, 9007199254740993ll, 9007199254740992ll })
    {
        scalar<Val, long long>(cx, rv, v, V::integer(x), x, "long long");
        scalar<Val, double>(cx, rv, v, V::floating(static_cast<double>(x)), static_cast<double>(x), "double");
    }
    for (bool x : { false, true })
        scalar<Val, bool>(cx, rv, v, V::boolean(x), x, "bool");
    scalar<Val, std::nullptr_t>(cx, rv, v, V(), nullptr, "null pointer");
    cx.note(ref::show(rv) + " compared with plain scalars");
}
static void strings(mc::Ctx& cx, const V& rv)
{
    auto v = to<json::value>(rv);
    auto w = to<wjson::value>(rv);
    for (auto s : { "", "a", "ab", "b" })
    {
        scalar<json::value, const char*>(cx, rv, v, V::string(ref::ascii(s)), s, "char pointer");
        std::wstring ws(s, s + strlen(s));
        scalar<wjson::value, const wchar_t*>(cx, rv, w, V::string(ref::ascii(s)), ws.c_str(), "wide char pointer");
        // a std::string converts to a value
        unsigned g = ops(v, std::string(s)), h = ops(std::string(s), v);
        if (g != want<char>(rv, V::string(ref::ascii(s))) || h != want<char>(V::string(ref::ascii(s)), rv))
            cx.fail(ref::show(rv) + " and the string " + s + " compare " + opnames(g) + " and " + opnames(h));
    }
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C13";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "all pairs of the stated values under all six operators, all triples of comparable values, all pairs of a value and a plain scalar; a case is distinct by the combination of operators that hold";
    ck.assumptions = { "strings and keys are ordered by their code units (char as unsigned), as std::string orders them" };
    static std::vector<V> vs, nums, strs;
    const long long       two53 = 9007199254740992ll;
    for (long long x : { 0ll, 1ll, -1ll, 2ll, 7ll, -7ll, two53 - 1, two53, two53 + 1, two53 + 2, -two53 - 1, -two53, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1, 1ll << 62, (1ll << 62) + 1 })
        nums.push_back(V::integer(x));
    for (double x : { 0.0, -0.0, 0.5, -0.5, 1.0, 1.5, -1.0, -1.5, 2.0, 6.999999, 7.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0, 9223372036854775808.0, 9223372036854774784.0,
                      -9223372036854775808.0, -9223372036854777856.0, 4611686018427387904.0, 1e300, -1e300, 5e-324, -5e-324, double(INFINITY), -double(INFINITY) })
        nums.push_back(V::floating(x));
    for (auto& u : { ref::U(U""), ref::U(U"a"), ref::U(U"ab"), ref::U(U"b"), ref::U(U"B"), ref::U(1, 0), ref::U(U"a") + ref::U(1, 0), ref::U(U"\u00e9"), ref::U(U"\uffff"), ref::U(U"\U0001f600"), ref::U(40, U'x'), ref::U(40, U'x') + U"y" })
        strs.push_back(V::string(u));
    vs = nums;
    vs.push_back(V::floating(NAN));
    vs.insert(vs.end(), strs.begin(), strs.end());
    for (auto b : { false, true })
        vs.push_back(V::boolean(b));
    static trees::Space sp;
    sp.leaves = { V(), V::boolean(false), V::boolean(true), V::integer(1), V::integer(2), V::floating(1.0), V::floating(1.5), V::string(U""), V::string(U"a") };
    sp.keys   = { U"", U"a", U"b" };
    sp.build(th ? 4 : 3);
    for (uint64_t i = 0; i < sp.size(); ++i)
        vs.push_back(sp[i]);
    static trees::Space sp2;
    sp2.leaves = { V(), V::integer(1), V::floating(1.0), V::string(U"a") };
    sp2.keys   = { U"a", U"b" };
    sp2.build(4);
    for (uint64_t i = 0; i < sp2.size(); ++i)
        vs.push_back(sp2[i]);
    static std::vector<json::value>  jv;
    static std::vector<wjson::value> wv;
    for (auto& v : vs)
    {
        jv.push_back(to<json::value>(v));
        wv.push_back(to<wjson::value>(v));
    }
    ck.add("pairs", vs.size(), "each of " + std::to_string(vs.size()) + " values (boundary numbers, strings, every tree of weight up to " + std::to_string(th ? 4 : 3) + " over 9 leaves and 3 keys, up to 4 over 4 leaves and 2 keys) with every other, narrow and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               for (size_t k = 0; k < vs.size(); ++k)
               {
                   compare(cx, vs[i], vs[k], jv[i], jv[k]);
                   if ((i + k) % 4 == 0)
                       compare(cx, vs[i], vs[k], wv[i], wv[k]);
               }
           });
    ck.add("self", vs.size(), "each value with itself, its copy and the same value built another way", [](mc::Ctx& cx, uint64_t i)
           {
               auto&       r = vs[i];
               json::value c = jv[i];
               compare(cx, r, r, jv[i], jv[i]);
               compare(cx, r, r, c, jv[i]);
               if (c.is_object())
               {
                   json::value o(configor::value_constant::object);
                   for (auto it = c.rbegin(); it != c.rend(); ++it)
                       o[it.key()] = it.value();
                   compare(cx, r, r, o, jv[i]);
                   o["zz"] = 1;
                   o.erase("zz");
                   compare(cx, r, r, jv[i], o);
               }
               if (c.is_array())
               {
                   c.push_back(1);
                   if (c == jv[i] || !(jv[i] < c))
                       cx.fail("a longer array is not greater: " + ref::show(r));
                   c.erase(c.size() - 1);
                   compare(cx, r, r, c, jv[i]);
               }
           });
    // nested: every pair of numbers, and of strings, inside containers, behind equal prefixes
    ck.add("nested", nums.size() * nums.size() * 4, "every pair of boundary numbers as an element behind an equal prefix, a member, a nested element, and against a shorter one",
           [](mc::Ctx& cx, uint64_t i)
           {
               auto &a = nums[i / 4 / nums.size()], &b = nums[i / 4 % nums.size()];
               V     x, y;
               auto  one = V::integer(1);
               switch (i % 4)
               {
               case 0:
                   x = V::array({ one, V::string(U"s"), a }), y = V::array({ one, V::string(U"s"), b });
                   break;
               case 1:
                   x = V::object({ { U"a", one }, { U"b", a } }), y = V::object({ { U"a", one }, { U"b", b } });
                   break;
               case 2:
                   x = V::array({ V::object({ { U"k", V::array({ a, one }) } }), one }), y = V::array({ V::object({ { U"k", V::array({ b, one }) } }), V::integer(0) });
                   break;
               default:
                   x = V::array({ a }), y = V::array({ b, one });
               }
               compare(cx, x, y, to<json::value>(x), to<json::value>(y));
           });
    // sets of values whose corresponding parts are of one kind: all triples
    static std::vector<std::vector<json::value>> sets;
    {
        std::vector<json::value> n, st, arr, nest, obj;
        for (auto& x : nums)
            n.push_back(to<json::value>(x));
        for (auto& x : strs)
            st.push_back(to<json::value>(x));
        static const json::value leaf[] = { 1, 1.5, 2, 2.0, 1.0 };
        arr.push_back(json::array{});
        nest.push_back(json::array{});
        obj.push_back(json::value(configor::value_constant::object));
        for (auto& x : leaf)
        {
            arr.push_back(json::array{ x });
            nest.push_back(json::array{ json::array{ x } });
            obj.push_back(json::object{ { "a", x } });
            obj.push_back(json::object{ { "b", x } });
            for (auto& y : leaf)
            {
                arr.push_back(json::array{ x, y });
                arr.push_back(json::array{ x, y, 3 });
                nest.push_back(json::array{ json::array{ x, y } });
                nest.push_back(json::array{ json::array{ x }, json::array{ y } });
                obj.push_back(json::object{ { "a", x }, { "b", y } });
                obj.push_back(json::object{ { "a", x }, { "c", y } });
            }
        }
        sets = { n, st, arr, nest, obj };
    }
    ck.add("triples", 5 * 64 * 64, "all triples of boundary numbers, of strings, and of arrays and objects whose parts are numbers: transitivity of <, == and equivalence",
           [](mc::Ctx& cx, uint64_t i)
           {
               auto&  s = sets[i % 5];
               size_t a = i / 5 % 64, b = i / 5 / 64;
               if (a >= s.size() || b >= s.size())
                   return;
               auto &x = s[a], &y = s[b];
               for (auto& z : s)
               {
                   cx.eval();
                   auto say = [&] { return json::dump(x) + " " + json::dump(y) + " " + json::dump(z); };
                   if (x < y && y < z && !(x < z))
                       cx.fail("< is not transitive: " + say());
                   if (!(x < y) && !(y < x) && !(y < z) && !(z < y) && (x < z || z < x))
                       cx.fail("equivalence is not transitive: " + say());
                   if (x == y && y == z && !(x == z))
                       cx.fail("== is not transitive: " + say());
               }
           });
    ck.add("scalars", vs.size(), "every value with plain scalars of 11 types on either side", [](mc::Ctx& cx, uint64_t i)
           {
               scalars<json::value>(cx, vs[i]);
               scalars<wjson::value>(cx, vs[i]);
               strings(cx, vs[i]);
           });
    static const unsigned N = th ? 1500 : 400;
    ck.add("sizes", (N + mc::big_sizes) * 3, "arrays, objects and strings of every size against ones that differ at the first, middle, last place or in length", [](mc::Ctx& cx, uint64_t i)
           {
               size_t n = mc::size_at(i / 3, N);
               V      v = i % 3 == 0 ? V::array() : i % 3 == 1 ? V::object() : V::string(ref::U(n, U'm'));
               for (size_t k = 0; k < n; ++k)
                   if (i % 3 == 0)
                       v.a.push_back(V::integer(static_cast<long>(k)));
                   else if (i % 3 == 1)
                   {
                       char b[16];
                       std::snprintf(b, sizeof b, "%06u", static_cast<unsigned>(k));
                       v.o.emplace_back(ref::ascii(b), V::integer(5));
                   }
               auto a = to<json::value>(v);
               compare(cx, v, v, a, to<json::value>(v));
               for (size_t k : { size_t(0), n / 2, n ? n - 1 : 0 })
                   if (k < n)
                       for (int d : { -1, 1 })
                       {
                           V w = v;
                           if (i % 3 == 0)
                               w.a[k].i += d;
                           else if (i % 3 == 1)
                               w.o[k].second.i += d;
                           else
                               w.s[k] = static_cast<char32_t>(static_cast<int>(w.s[k]) + d);
                           auto b = to<json::value>(w);
                           compare(cx, v, w, a, b);
                           compare(cx, w, v, b, a);
                           V x = v;
                           if (i % 3 == 0)
                               x.a.pop_back();
                           else if (i % 3 == 1)
                               x.o.erase(x.o.begin() + static_cast<long>(k));
                           else
                               x.s.pop_back();
                           compare(cx, v, x, a, to<json::value>(x));
                           compare(cx, x, w, to<json::value>(x), b);
                       }
           });
    return mc::run(ck, argc, argv);
}
