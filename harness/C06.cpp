// C06: dumping a value and parsing the text gives the same value back.
#include "trees.hpp"
#include <cfloat>
#include <sstream>
using namespace cf;

enum Fmt
{
    General,
    Fixed,
    Scientific,
    Hex  // disabled by the library: written as general
};
static const std::ios_base::fmtflags flag_of[] = { std::ios_base::fmtflags(0), std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific };

struct Opt
{
    unsigned indent = 0;
    char     ch     = ' ';
    bool     esc    = false;
    int      prec   = -1;  // -1: not given
    Fmt      fmt    = General;
    bool     wrap   = false;  // through a wrapped stream, both ways
    std::string text() const
    {
        return "indent=" + std::to_string(indent) + " char=" + std::to_string(ch) + " escaping=" + std::to_string(esc) + " precision=" + std::to_string(prec) + " format=" + std::to_string(fmt)
               + (wrap ? " wrapped" : "");
    }
    // what may be lost: absolute and relative
    ref::Cmp cmp() const
    {
        ref::Cmp c;
        c.zero_sign = false;
        int p       = prec < 0 ? 6 : prec;
        c.rel       = 1e-12L;
        c.abs       = 1e-320L;
        if (prec >= 0 && fmt == Fixed)
            c.abs += 0.501L * powl(10, -p);
        else if (prec >= 0 && fmt == Scientific)
            c.rel += 0.501L * powl(10, -p);
        else
            c.rel += 0.501L * powl(10, 1 - (p ? p : 1));
        return c;
    }
};

template <class Json>
void round_trip(mc::Ctx& cx, const ref::V& t, const Opt& o)
{
    using V  = typename Json::value;
    using Ch = typename V::char_type;
    using S  = typename Json::serializer;
    auto                  v = to<V>(t);
    std::basic_string<Ch> text;
    V                     back;
    cx.eval();
    auto e = attempt(
        [&]
        {
            if (o.wrap)
            {
                std::basic_stringstream<Ch> ss;
                if (o.prec >= 0)
                {
                    ss.precision(o.prec);
                    ss.setf(flag_of[o.fmt], std::ios_base::floatfield);
                }
                if (o.indent)
                {
                    ss.width(o.indent);
                    ss.fill(static_cast<Ch>(o.ch));
                }
                ss << Json::wrap(v);
                text   = ss.str();
                auto w = Json::wrap(back);
                ss >> w;
            }
            else
            {
                if (o.prec >= 0)
                    text = Json::template dump<Ch>(v, { S::with_indent(static_cast<uint8_t>(o.indent), static_cast<Ch>(o.ch)), S::with_unicode_escaping(o.esc), S::with_precision(o.prec, flag_of[o.fmt]) });
                else if (o.indent || o.esc)
                    text = Json::template dump<Ch>(v, { S::with_indent(static_cast<uint8_t>(o.indent), static_cast<Ch>(o.ch)), S::with_unicode_escaping(o.esc) });
                else
                    text = Json::template dump<Ch>(v);
                back = Json::template parse<Ch>(text);
            }
        });
    if (cx.verbose)
        cx.note(o.text() + ": " + ref::show(t) + " -> " + mc::shows(text) + " -> " + (e ? name(e) : ref::show(from(back))));
    if (e)
        cx.fail("round trip (" + o.text() + ") of " + ref::show(t) + " ended with " + name(e) + ", text " + mc::shows(text));
    auto b = from(back);
    auto c = o.cmp();
    c.ordered = true;
    if (!ref::eq(b, t, c))
        cx.fail("round trip (" + o.text() + ") of " + ref::show(t) + " gave " + ref::show(b) + ", text " + mc::shows(text));
    cx.outcome(shape_hash(b) ^ mc::mix(o.indent * 4 + o.fmt + static_cast<uint64_t>(o.prec + 1) * 1000));
}
template <class F>
void both(mc::Ctx& cx, const ref::V& t, const Opt& o, F)
{
    round_trip<json>(cx, t, o);
    round_trip<wjson>(cx, t, o);
}

static std::vector<Opt> options()
{
    std::vector<Opt> r;
    auto add = [&](unsigned ind, char ch, bool esc, int prec, Fmt f, bool w)
    {
        Opt o;
        o.indent = ind, o.ch = ch, o.esc = esc, o.prec = prec, o.fmt = f, o.wrap = w;
        r.push_back(o);
    };
    add(0, ' ', false, -1, General, false);
    add(0, ' ', true, -1, General, false);
    add(2, ' ', false, -1, General, false);
    add(1, '\t', true, -1, General, false);
    add(4, ' ', false, 17, General, false);
    add(0, ' ', false, 3, Fixed, false);
    add(255, ' ', true, 6, Scientific, false);
    add(0, ' ', false, -1, General, true);
    add(3, ' ', false, 17, Scientific, true);
    add(1, '\n', false, 0, Fixed, true);
    return r;
}
static std::vector<Opt> float_options()
{
    std::vector<Opt> r;
    for (int p : { -1, 0, 1, 2, 3, 6, 9, 12, 15, 16, 17, 20, 40 })
        for (Fmt f : { General, Fixed, Scientific, Hex })
            for (bool w : { false, true })
            {
                if (p < 0 && f != General)
                    continue;
                Opt o;
                o.prec = p, o.fmt = f, o.wrap = w;
                r.push_back(o);
            }
    return r;
}
// the largest magnitudes, where the rounded text may leave the type's range (finding dbl-max)
static bool near_limit(double d, const Opt& o)
{
    long double c = o.cmp().rel;
    return std::fabs(static_cast<long double>(d)) * (1 + c) > static_cast<long double>(DBL_MAX) * (1 - 1e-12L);
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C06";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "every value tree up to a weight, every boundary integer, floats of every exponent, every code point, each under each option combination; a case "
              "is distinct by the value and the format options";
    ck.assumptions = { "floats whose rounded text lies within 1e-12 of the type's limit or beyond are not promised a round trip" };
    static const auto    opts = options(), fopts = float_options();
    static trees::Space sp;
    sp.leaves = { ref::V(), ref::V::boolean(true), ref::V::boolean(false), ref::V::integer(-7), ref::V::integer(INT64_MAX), ref::V::floating(0.5), ref::V::floating(3.0), ref::V::string(U""),
                  ref::V::string(U"a\"\\\n\u00e9\U0001f600") };
    sp.keys   = { U"", U"a", U"\u00e9\"" };
    sp.build(th ? 5 : 4);
    ck.add("trees", sp.size() * opts.size(), "every tree of weight up to " + std::to_string(th ? 5 : 4) + " over 9 leaves and 3 keys x 10 option sets, narrow and wide",
           [](mc::Ctx& cx, uint64_t i) { both(cx, sp[i / opts.size()], opts[i % opts.size()], 0); });
    ck.add("integers", trees::integer_count, "integers within 20 of every power of two and ten, both signs, in 3 contexts",
           [](mc::Ctx& cx, uint64_t i)
           {
               auto v = ref::V::integer(trees::integer_of(i));
               for (auto& o : { opts[0], opts[7], opts[2], opts[5] })
               {
                   both(cx, v, o, 0);
                   both(cx, ref::V::array({ v, v }), o, 0);
                   both(cx, ref::V::object({ { U"k", v } }), o, 0);
               }
           });
    ck.add("floats", trees::float_count / (th ? 1 : 3), "floats of every exponent (quick: every third) with 12 mantissas and both signs x 74 precision and format settings",
           [th](mc::Ctx& cx, uint64_t i)
           {
               double d = trees::float_of(th ? i : (i / 24 * 3 + 1) * 24 + i % 24);
               if (!std::isfinite(d))
                   return;
               for (auto& o : fopts)
                   if (!near_limit(d, o))
                       round_trip<json>(cx, ref::V::floating(d), o);
               for (int k : { 0, 1, 12, 30 })
                   if (!near_limit(d, fopts[k]))
                       round_trip<wjson>(cx, ref::V::array({ ref::V::floating(d), ref::V::floating(-d) }), fopts[k]);
           });
    ck.add("decimals", 28 * (th ? 12000 : 1100), "m * 10^-k for every m below 1100 (12000), 14 k, both signs, x 6 settings",
           [](mc::Ctx& cx, uint64_t i)
           {
               double d = trees::decimal_of(i);
               for (int k : { 0, 1, 12, 22, 34, 66 })
                   round_trip<json>(cx, ref::V::floating(d), fopts[k]);
           });
    ck.add("codepoints", 0x110000 / 16, "every code point in a string and a key, with and without escaping and indentation",
           [](mc::Ctx& cx, uint64_t i)
           {
               ref::U all;
               for (uint32_t k = 0; k < 16; ++k)
               {
                   uint32_t c = static_cast<uint32_t>(i * 16 + k);
                   if (!ref::scalar(c))
                       continue;
                   all.push_back(c);
                   ref::U one(1, c);
                   if (c < 0x1000)
                       for (int o : { 0, 1, 7 })
                           both(cx, ref::V::object({ { one, ref::V::string(one) } }), opts[o], 0);
               }
               if (all.empty())
                   return;
               for (int o : { 0, 1, 3, 7 })
                   both(cx, ref::V::object({ { all, ref::V::array({ ref::V::string(all), ref::V::string(all.substr(0, 1)) }) } }), opts[o], 0);
           });
    static const std::vector<ref::U> el = { U"a", U"\"", U"\\", U"/", U"\n", ref::U(1, 0), U"\u001f", U"\u007f", U"\u00e9", U"\uffff", U"\U0001f600", U"u0041" };
    ck.add("strings", mc::words_upto(el.size(), th ? 5 : 4), "every string of up to 4 (5) of 12 elements, as value and key",
           [](mc::Ctx& cx, uint64_t i)
           {
               ref::U u;
               for (auto x : mc::word(el.size(), i))
                   u += el[x];
               for (int o : { 0, 1 })
                   both(cx, ref::V::object({ { u, ref::V::string(u) } }), opts[o], 0);
           });
    static const unsigned N = th ? 3000 : 400;
    ck.add("sizes", (N + mc::big_sizes) * 4, "arrays, objects, strings and nestings of every size below " + std::to_string(N) + " and 12 sizes up to 131073",
           [](mc::Ctx& cx, uint64_t i)
           {
               unsigned n = static_cast<unsigned>(mc::size_at(i / 4, N));
               ref::V   v = ref::V::array();
               switch (i % 4)
               {
               case 0:
                   for (unsigned k = 0; k < n; ++k)
                       v.a.push_back(k % 3 ? ref::V::integer(k) : k % 2 ? ref::V::string(U"s") : ref::V());
                   break;
               case 1:
                   v = ref::V::object();
                   for (unsigned k = 0; k < n; ++k)
                   {
                       char b[16];
                       std::snprintf(b, sizeof b, "%06u", k);
                       v.o.emplace_back(ref::ascii(b), ref::V::integer(k));
                   }
                   break;
               case 2:
                   v = ref::V::string(ref::U(n, U'\u00e9'));
                   break;
               case 3:
                   for (unsigned k = 0; k < n % 300; ++k)
                       v = k % 2 ? ref::V::array({ v }) : ref::V::object({ { U"k", v } });
                   break;
               }
               for (int o : { 0, 2, 3, 7 })
                   both(cx, v, opts[o], 0);
           },
           60, 8);
    ck.known.push_back({ "dbl-max", "the text of DBL_MAX at precision 17 is refused as out of range",
                         [](mc::Ctx& cx)
                         {
                             auto t = json::dump(json::value(DBL_MAX), { json::serializer::with_precision(17, std::ios_base::scientific) });
                             auto e = attempt([&] { (void)json::parse(t); });
                             if (e != none)
                                 cx.fail("DBL_MAX is dumped as " + t + ", which parse refuses: " + name(e));
                         } });
    return mc::run(ck, argc, argv);
}
