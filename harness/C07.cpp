// C07: dumped text is valid RFC 8259 JSON denoting exactly the value.
#include "trees.hpp"
#include <sstream>
using namespace cf;

// read the text as JSON proper, independently of the library
template <class Ch>
void check_text(mc::Ctx& cx, const std::basic_string<Ch>& text, const ref::V& t, bool pretty, bool esc, const ref::Cmp& c)
{
    auto bad = [&](const std::string& why) { cx.fail("dumping " + ref::show(t) + (esc ? " with escaping" : "") + (pretty ? " with indent" : "") + " wrote " + mc::shows(text) + ": " + why); };
    if (cx.verbose)
        cx.note(ref::show(t) + " -> " + mc::shows(text));
    auto   u = ref::dec(text);
    ref::V back;
    for (auto x : u)
        if (x == ref::bad)
            bad("ill-formed text");
    if (ref::parse_strict(u, back) == ref::Bad)
        bad("not RFC 8259 JSON");
    if (!ref::eq(back, t, c))
        bad("it denotes " + ref::show(back));
    bool in = false;
    for (size_t i = 0; i < u.size(); ++i)
    {
        uint32_t x = u[i];
        if (esc && (x > 0x7E || (x < 0x20 && (in || !pretty))))
            bad("a character outside printable ASCII");
        if (in)
        {
            if (x < 0x20)
                bad("an unescaped control character");
            if (x == '\\')
            {
                ++i;
                if (u[i] == 'u')
                {
                    uint32_t v = 0;
                    for (int k = 1; k <= 4; ++k)
                        v = v * 16 + static_cast<uint32_t>(std::strtol(std::string(1, static_cast<char>(u[i + k])).c_str(), nullptr, 16));
                    if (v == 8 || v == 9 || v == 10 || v == 12 || v == 13 || v == '"' || v == '\\')
                        bad("a \\u escape where a short one exists");
                    i += 4;
                }
            }
            else if (x == '"')
                in = false;
        }
        else if (x == '"')
            in = true;
        else if (!pretty && (x == ' ' || x == '\n' || x == '\r' || x == '\t'))
            bad("white space in compact text");
    }
    cx.outcome(mc::hash(u.data(), u.size() * 4));
}
template <class Json, class TC>
void dump_one(mc::Ctx& cx, const ref::V& t, unsigned indent, bool esc, bool stream, const ref::Cmp& c = ref::literal_cmp())
{
    using S = typename Json::template serializer_type<TC>;
    cx.eval();
    auto                  v = to<typename Json::value>(t);
    std::basic_string<TC> text;
    if (stream)
    {
        std::basic_ostringstream<TC> os;
        Json::template dump<TC>(os, v, { S::with_indent(static_cast<uint8_t>(indent)), S::with_unicode_escaping(esc) });
        text = os.str();
    }
    else
        text = Json::template dump<TC>(v, { S::with_indent(static_cast<uint8_t>(indent)), S::with_unicode_escaping(esc) });
    check_text(cx, text, t, indent > 0, esc, c);
}
static void every(mc::Ctx& cx, const ref::V& t)
{
    for (bool esc : { false, true })
        for (unsigned ind : { 0u, 2u })
        {
            dump_one<json, char>(cx, t, ind, esc, ind);
            dump_one<wjson, wchar_t>(cx, t, ind, esc, !ind);
        }
}
static void few(mc::Ctx& cx, const ref::V& t)
{
    for (bool esc : { false, true })
    {
        dump_one<json, char>(cx, t, 0, esc, false);
        dump_one<wjson, wchar_t>(cx, t, 0, esc, false);
        dump_one<json, wchar_t>(cx, t, 0, esc, true);
        dump_one<wjson, char>(cx, t, 1, esc, true);
    }
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C07";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "every value tree up to a weight, every code point, every short string, boundary numbers, sizes and depths, under each escaping and layout mode; a "
              "case is distinct by its text";
    ck.assumptions = { "strict RFC 8259 reference parser (harness/ref.hpp)" };
    static trees::Space sp;
    sp.leaves = { ref::V(), ref::V::boolean(true), ref::V::boolean(false), ref::V::integer(0), ref::V::integer(-12), ref::V::floating(0.5), ref::V::floating(-3.0), ref::V::string(U""), ref::V::string(U"a\"\\\n\u00e9\U0001f600") };
    sp.keys   = { U"", U"a", U"b\t" };
    sp.build(th ? 5 : 4);
    ck.add("trees", sp.size(), "every tree of weight up to " + std::to_string(th ? 5 : 4) + " over 9 leaves and 3 keys, 8 modes", [](mc::Ctx& cx, uint64_t i) { every(cx, sp[i]); });
    ck.add("codepoints", 0x110000 / 8, "every code point as a string, between others, and as a key, narrow, wide and across, both escaping modes",
           [](mc::Ctx& cx, uint64_t i)
           {
               for (uint32_t k = 0; k < 8; ++k)
               {
                   uint32_t c = static_cast<uint32_t>(i * 8 + k);
                   if (!ref::scalar(c))
                       continue;
                   ref::U u(1, c);
                   auto   t = ref::V::object({ { u, ref::V::string(U"x" + u + U"1" + u) } });
                   for (bool esc : { false, true })
                   {
                       dump_one<json, char>(cx, t, 0, esc, false);
                       if (c < 0x3000 || c % 8 == 7)
                       {
                           dump_one<wjson, wchar_t>(cx, t, 0, esc, false);
                           dump_one<json, wchar_t>(cx, ref::V::string(u), 0, esc, true);
                           dump_one<wjson, char>(cx, ref::V::string(u), 0, esc, true);
                       }
                   }
               }
           });
    static const std::vector<ref::U> el = { U"a", U"\"", U"\\", U"/", U"\b", U"\f", U"\n", U"\r", U"\t", ref::U(1, 0), U"\u000b", U"\u001f", U"\u007f", U"\u0080", U"\u00e9", U"\uffff", U"\U00010000", U"\U0010ffff", U"u00e9" };
    ck.add("strings", mc::words_upto(el.size(), th ? 5 : 4), "every string of up to 4 (5) of 19 elements",
           [](mc::Ctx& cx, uint64_t i)
           {
               ref::U u;
               for (auto x : mc::word(el.size(), i))
                   u += el[x];
               for (bool esc : { false, true })
               {
                   dump_one<json, char>(cx, ref::V::string(u), 0, esc, false);
                   dump_one<wjson, wchar_t>(cx, ref::V::object({ { u, ref::V() } }), 0, esc, true);
               }
           });
    ck.add("integers", trees::integer_count, "integers within 20 of every power of two and ten", [](mc::Ctx& cx, uint64_t i) { few(cx, ref::V::array({ ref::V::integer(trees::integer_of(i)), ref::V::integer(1) })); });
    static ref::Cmp loose;
    loose.rel       = 5.1e-6L;
    loose.abs       = 1e-320L;
    loose.zero_sign = false;
    ck.add("floats", trees::float_count, "floats of every exponent with 12 mantissas and both signs: valid JSON whatever the magnitude",
           [](mc::Ctx& cx, uint64_t i)
           {
               double d = trees::float_of(i);
               if (!std::isfinite(d))
                   return;
               auto t = ref::V::array({ ref::V::floating(d), ref::V::string(U"s") });
               dump_one<json, char>(cx, t, 0, false, i & 1, loose);
               dump_one<wjson, wchar_t>(cx, t, 0, true, !(i & 1), loose);
           });
    static const unsigned N = th ? 3000 : 500;
    ck.add("sizes", (N + mc::big_sizes) * 5, "arrays, objects, strings, keys and nestings of every size below " + std::to_string(N) + " and 12 sizes up to 131073",
           [](mc::Ctx& cx, uint64_t i)
           {
               unsigned n = static_cast<unsigned>(mc::size_at(i / 5, N));
               ref::V   v = ref::V::array();
               switch (i % 5)
               {
               case 0:
                   for (unsigned k = 0; k < n; ++k)
                       v.a.push_back(k % 5 == 0 ? ref::V::array() : k % 5 == 1 ? ref::V::object() : k % 5 == 2 ? ref::V::string(U"s") : ref::V::integer(k));
                   break;
               case 1:
                   v = ref::V::object();
                   for (unsigned k = 0; k < n; ++k)
                   {
                       char b[16];
                       std::snprintf(b, sizeof b, "%06u", k);
                       v.o.emplace_back(ref::ascii(b), k % 2 ? ref::V::integer(k) : ref::V::array({ ref::V() }));
                   }
                   break;
               case 2:
                   for (unsigned k = 0; k < n; ++k)
                       v.s += U"\u00e9\"\U0001f600"[k % 3];
                   v.k = ref::Str;
                   break;
               case 3:
                   v = ref::V::object({ { ref::U(n, U'\\'), ref::V::string(ref::U(n, U'\u0001')) } });
                   break;
               case 4:
                   for (unsigned k = 0; k < n % 300; ++k)
                       v = k % 2 ? ref::V::array({ v, ref::V() }) : ref::V::object({ { U"k", v }, { U"l", ref::V::object() } });
                   break;
               }
               ref::Cmp c;
               for (bool esc : { false, true })
               {
                   dump_one<json, char>(cx, v, 0, esc, false, c);
                   dump_one<wjson, wchar_t>(cx, v, 1, esc, true, c);
               }
           },
           60, 8);
    return mc::run(ck, argc, argv);
}
