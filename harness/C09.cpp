// C09: pretty printing adds white space only, in the documented layout.
#include "trees.hpp"
#include <iomanip>
#include <sstream>
using namespace cf;

template <class Ch>
using Str = std::basic_string<Ch>;

// The expected layout, with the texts of scalars and keys taken from compact dumps.  Empty containers
// may hold any white space; they are marked so that the comparison can skip it.
template <class Json, class Out>
struct Layout
{
    unsigned                        n;
    Out                             ch;
    std::function<Str<Out>(const ref::V&)> scalar;

    // does `t` at `p` read as v at this depth?  moves p, sets where on mismatch
    bool lit(const Str<Out>& t, size_t& p, const Str<Out>& want) const
    {
        if (t.compare(p, want.size(), want) != 0)
            return false;
        p += want.size();
        return true;
    }
    Str<Out> line(unsigned depth) const { return n ? Str<Out>(1, Out('\n')) + Str<Out>(static_cast<size_t>(depth) * n, ch) : Str<Out>(); }
    bool     value(const Str<Out>& t, size_t& p, const ref::V& v, unsigned depth) const
    {
        if (v.k != ref::Arr && v.k != ref::Obj)
            return lit(t, p, scalar(v));
        bool   arr = v.k == ref::Arr;
        size_t cnt = arr ? v.a.size() : v.o.size();
        if (!lit(t, p, Str<Out>(1, Out(arr ? '[' : '{'))))
            return false;
        if (cnt == 0)
        {
            if (n)
                while (p < t.size() && (t[p] == ch || t[p] == Out(' ') || t[p] == Out('\n')))
                    ++p;
            return lit(t, p, Str<Out>(1, Out(arr ? ']' : '}')));
        }
        for (size_t i = 0; i < cnt; ++i)
        {
            if (i && !lit(t, p, Str<Out>(1, Out(','))))
                return false;
            if (!lit(t, p, line(depth + 1)))
                return false;
            if (!arr)
            {
                if (!lit(t, p, scalar(ref::V::string(v.o[i].first)) + Str<Out>(1, Out(':')) + Str<Out>(n ? 1 : 0, ch)))
                    return false;
                if (!value(t, p, v.o[i].second, depth + 1))
                    return false;
            }
            else if (!value(t, p, v.a[i], depth + 1))
                return false;
        }
        return lit(t, p, line(depth)) && lit(t, p, Str<Out>(1, Out(arr ? ']' : '}')));
    }
};

struct Set
{
    bool esc;
    int  prec;  // -1: default
};

template <class Json, class Out>
void layout(mc::Ctx& cx, const ref::V& r, unsigned n, uint32_t chr, const Set& s)
{
    using V = typename Json::value;
    using S = typename Json::template serializer_type<Out>;
    auto v  = to<V>(r);
    Out  ch = static_cast<Out>(chr);
    auto esc = S::with_unicode_escaping(s.esc);
    auto pre = s.prec >= 0 ? S::with_precision(s.prec) : S::with_unicode_escaping(s.esc);
    Layout<Json, Out> l{ n, ch, [&](const ref::V& x) { return Json::template dump<Out>(to<V>(x), { esc, pre }); } };
    auto              judge = [&](const char* how, const Str<Out>& t)
    {
        cx.eval();
        size_t p = 0;
        if (!l.value(t, p, r, 0) || p != t.size())
            cx.fail(std::string("pretty printing ") + ref::show(r) + " with indent " + std::to_string(n) + " of " + mc::shows(Str<Out>(1, ch)) + " " + how + " gave\n" + mc::shows(t)
                    + "\nwhich leaves the documented layout at character " + std::to_string(p));
        cx.outcome(mc::hash(t.data(), t.size() * sizeof(Out)));
    };
    auto a = Json::template dump<Out>(v, { S::with_indent(static_cast<uint8_t>(n), ch), esc, pre });
    cx.note(ref::show(r) + " -> " + mc::shows(a));
    judge("by option", a);
    auto a2 = Json::template dump<Out>(v, { pre, esc, S::with_indent(static_cast<uint8_t>(n), ch) });
    if (a2 != a)
        cx.fail("the order of the options matters: " + mc::shows(a) + " and " + mc::shows(a2));
    if (n == 0)
    {
        auto c = Json::template dump<Out>(v, { esc, pre });
        if (c != a)
            cx.fail("indent 0 gives " + mc::shows(a) + " and the compact text is " + mc::shows(c));
    }
    // stream width and fill, options given for the rest
    {
        std::basic_ostringstream<Out> os;
        os << std::setw(static_cast<int>(n)) << std::setfill(ch);
        Json::template dump<Out>(os, v, { esc, pre });
        if (os.str() != a)
            cx.fail("by width and fill " + mc::shows(os.str()) + ", by option " + mc::shows(a));
        if (os.width() != 0)
            cx.fail("the stream's width was not consumed");
    }
    // options win over the stream
    {
        std::basic_ostringstream<Out> os;
        os << std::setw(9) << std::setfill(Out('#'));
        Json::template dump<Out>(os, v, { S::with_indent(static_cast<uint8_t>(n), ch), esc, pre });
        if (os.str() != a)
            cx.fail("by option on a stream with a width of its own " + mc::shows(os.str()) + ", by option alone " + mc::shows(a));
    }
    // wrapped output with manipulators
    if (!s.esc)
    {
        std::basic_ostringstream<Out> os;
        if (s.prec >= 0)
            os << std::fixed << std::setprecision(s.prec);
        os << std::setfill(ch) << std::setw(static_cast<int>(n)) << Json::wrap(v);
        os << Out('|') << Json::wrap(v);
        auto c = Json::template dump<Out>(v, { esc, pre });
        if (os.str() != a + Str<Out>(1, Out('|')) + c)
            cx.fail("wrapped output " + mc::shows(os.str()) + ", by option " + mc::shows(a) + " and compact " + mc::shows(c));
    }
}
static void all(mc::Ctx& cx, const ref::V& r, unsigned n, char ch, const Set& s)
{
    layout<json, char>(cx, r, n, ch, s);
    layout<wjson, wchar_t>(cx, r, n, ch, s);
}

// measures the lines of a text that is too long to keep
struct LineMeter : std::streambuf
{
    size_t              col = 0, line = 0;
    std::vector<size_t> spaces;  // per line
    void                put(const char* s, size_t n)
    {
        while (n)
        {
            auto   e = static_cast<const char*>(std::memchr(s, '\n', n));
            size_t k = e ? static_cast<size_t>(e - s) : n;
            col += k;
            if (!e)
                return;
            spaces.push_back(col);
            col = 0;
            s += k + 1;
            n -= k + 1;
        }
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        put(s, static_cast<size_t>(n));
        return n;
    }
    int overflow(int c) override
    {
        char ch = static_cast<char>(c);
        put(&ch, 1);
        return 0;
    }
};
static void deepest(mc::Ctx& cx)
{
    static const size_t D = 70000;
    std::string         bad;
    auto                body = [](void* p) -> void*
    {
        json::value v = 1;
        for (size_t k = 0; k < D; ++k)
        {
            json::value o(configor::value_constant::array);
            o.push_back(std::move(v));
            v = std::move(o);
        }
        LineMeter    m;
        std::ostream os(&m);
        json::dump(os, v, { json::serializer::with_indent(1) });
        m.spaces.push_back(m.col);
        auto& b = *static_cast<std::string*>(p);
        if (m.spaces.size() != 2 * D + 1)
            b = "there are " + std::to_string(m.spaces.size()) + " lines";
        for (size_t k = 0; k < m.spaces.size() && b.empty(); ++k)
            if (m.spaces[k] != (k <= D ? k : 2 * D - k) + 1)
                b = "line " + std::to_string(k) + " has " + std::to_string(m.spaces[k]) + " characters";
        return nullptr;
    };
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1u << 30);
    pthread_t t;
    if (pthread_create(&t, &at, body, &bad))
        return;
    pthread_join(t, nullptr);
    cx.eval();
    cx.note("70000 nested arrays with indentation 1 " + bad);
    if (!bad.empty())
        cx.fail("70000 nested arrays with indentation 1: " + bad);
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C09";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "every value tree up to a weight, every indentation 0..255, every depth and size within the bounds, by options, stream width and fill and manipulators; a case is distinct by "
              "the text written";
    ck.assumptions = { "empty containers may contain white space (the code writes a line break there)" };
    static trees::Space sp;
    sp.leaves = { ref::V(), ref::V::boolean(true), ref::V::integer(-7), ref::V::floating(0.5), ref::V::string(U"a\n\u00e9[,{:") };
    sp.keys   = { U"", U"a", U"\u00e9\"," };
    sp.build(th ? 6 : 5);
    static const unsigned ns[]  = { 0, 1, 2, 4, 7 };
    static const char     chs[] = { ' ', '\t', '.', '"', ' ' };
    ck.add("trees", sp.size() * (th ? 5 : 2), "every tree of weight up to " + std::to_string(th ? 6 : 5) + " over 5 leaves and 3 keys x 2 (5) indentations, 4 routes, narrow and wide",
           [th](mc::Ctx& cx, uint64_t i)
           {
               unsigned m = th ? 5 : 2;
               uint64_t t = i / m, k = th ? i % 5 : (t + i % 2 * 2) % 5;
               all(cx, sp[t], ns[k], chs[(t + k) % 5], { k % 2 == 1, k % 3 == 1 ? 3 : -1 });
           });
    static std::vector<ref::V> docs;
    docs = { ref::V::array({ ref::V::integer(1), ref::V::object({ { U"k", ref::V::array({ ref::V(), ref::V::string(U"s") }) }, { U"l", ref::V::object() } }) }),
             ref::V::object({ { U"a", ref::V::object({ { U"b", ref::V::floating(1.5) }, { U"c", ref::V::array() } }) } }), ref::V::string(U"x") };
    ck.add("indents", 256 * 127 * 3, "every indentation 0..255 with every indent character 1..127, 3 documents",
           [th](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               auto&      v  = docs[d(3)];
               unsigned   n  = static_cast<unsigned>(d(256));
               char       ch = static_cast<char>(d(127) + 1);
               if (ch == ']' || ch == '}')
                   return;  // an empty container would be ambiguous
               if (!th && n > 20 && n < 250 && ch != ' ' && ch != '\t' && ch % 8)
                   return;
               all(cx, v, n, ch, { false, -1 });
           });
    ck.add("other indents", 6 * 3 * (128 + 0x180 + 60), "6 indentations with every indent character 128..255 in char and, in wchar_t, every one up to 0x1FF and 60 far ones, 3 documents", [](mc::Ctx& cx, uint64_t i)
           {
               static const unsigned n6[] = { 1, 2, 4, 17, 128, 255 };
               mc::Digits            d(i);
               auto&                 v = docs[d(3)];
               unsigned              n = n6[d(6)];
               uint64_t              k = d(128 + 0x180 + 60);
               if (k < 128)
                   layout<json, char>(cx, v, n, static_cast<uint32_t>(128 + k), { false, -1 }), layout<wjson, char>(cx, v, n, static_cast<uint32_t>(128 + k), { false, -1 });
               else if (k < 128 + 0x180)
                   layout<wjson, wchar_t>(cx, v, n, static_cast<uint32_t>(k), { false, -1 }), layout<json, wchar_t>(cx, v, n, static_cast<uint32_t>(k), { false, -1 });
               else
               {
                   static const uint32_t far[] = { 0x3000, 0xD7FF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x2028, 0xFEFF, 0x7F00 };
                   k -= 128 + 0x180;
                   layout<wjson, wchar_t>(cx, v, n, far[k % 10] + (k < 10 ? 0 : static_cast<uint32_t>(0x100 * (k / 10))), { false, -1 });
               }
           });
    static const unsigned D = th ? 500 : 300;
    ck.add("depths", D * 12 * 3, "nestings of every depth below " + std::to_string(D) + " of 3 shapes with indentations 0..3 (0..11 to a third of that)",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               unsigned   shape = static_cast<unsigned>(d(3)), n = static_cast<unsigned>(d(12)), dep = static_cast<unsigned>(d(D));
               if (n > 3 && dep > D / 3)
                   return;
               ref::V     v = ref::V::integer(5);
               for (unsigned k = 0; k < dep; ++k)
                   if (shape == 0)
                       v = ref::V::array({ std::move(v) });
                   else if (shape == 1)
                       v = ref::V::object({ { U"k", std::move(v) } });
                   else
                       v = k % 2 ? ref::V::array({ ref::V(), std::move(v), ref::V::array() }) : ref::V::object({ { U"a", std::move(v) }, { U"b", ref::V::integer(1) } });
               layout<json, char>(cx, v, n, ' ', { false, -1 });
           },
           60);
    ck.add("deepest", 1, "70000 nested arrays with indentation 1: the width of every line", [](mc::Ctx& cx, uint64_t) { deepest(cx); }, 120);
    static const unsigned W = th ? 3000 : 600;
    ck.add("sizes", (W + mc::big_sizes) * 4, "arrays and objects of every size below " + std::to_string(W) + " and 12 sizes up to 131073, indentations 0, 1, 3, 200",
           [](mc::Ctx& cx, uint64_t i)
           {
               static const unsigned is[] = { 0, 1, 3, 200 };
               ref::V                a = ref::V::array(), o = ref::V::object();
               for (unsigned k = 0; k < mc::size_at(i / 4, W); ++k)
               {
                   a.a.push_back(k % 2 ? ref::V::integer(k) : ref::V::string(U"s"));
                   char b[16];
                   std::snprintf(b, sizeof b, "%06u", k);
                   o.o.emplace_back(ref::ascii(b), k % 7 ? ref::V() : ref::V::array());
               }
               if (a.a.size() > 10000 && is[i % 4] > 100)
                   return;
               layout<json, char>(cx, a, is[i % 4], ' ', { false, -1 });
               layout<json, char>(cx, o, is[i % 4], '\t', { false, -1 });
           });
    // wide values to narrow text and the reverse
    ck.add("across", sp.size(), "every tree dumped across character widths", [](mc::Ctx& cx, uint64_t i)
           {
               layout<json, wchar_t>(cx, sp[i], 2, ' ', { i % 2 == 0, -1 });
               layout<wjson, char>(cx, sp[i], 3, '\t', { i % 2 == 1, -1 });
           });
    return mc::run(ck, argc, argv);
}
