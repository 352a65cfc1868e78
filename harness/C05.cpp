// C05: text keeps its code points across every pair of source and target encodings.
#include "forms.hpp"
using namespace cf;
using namespace forms;
using ref::U;
namespace encoding = configor::encoding;

template <class Json, class SC, int SF, int VF>
void parse_one(mc::Ctx& cx, const std::basic_string<SC>& text, const char* name)
{
    using VC = typename Json::value::char_type;
    if (!carried(text))
        return;
    ref::V want;
    auto   st    = ref::parse(decode<SC, SF>(text), want);
    auto   judge = [&](bool both)
    {
        cx.eval();
        typename Json::value got;
        using P = typename Json::template parser_type<SC>;
        auto e  = attempt(
            [&]
            {
                if constexpr (SF == VF && SF)
                    if (both)
                    {
                        got = Json::template parse<SC>(text, { P::template with_encoding<form<SF>::template enc>() });
                        return;
                    }
                if constexpr (SF && VF)
                    got = Json::template parse<SC>(text, { P::template with_source_encoding<form<SF>::template enc>(), P::template with_target_encoding<form<VF>::template enc>() });
                else if constexpr (SF)
                    got = Json::template parse<SC>(text, { P::template with_source_encoding<form<SF>::template enc>() });
                else if constexpr (VF)
                    got = Json::template parse<SC>(text, { P::template with_target_encoding<form<VF>::template enc>() });
                else
                    got = Json::template parse<SC>(text);
            });
        auto who = std::string(name) + (both ? " (one encoding for both sides)" : "");
        if (cx.verbose)
            cx.note(who + " parse " + mc::showw(text) + ": " + (e ? cf::name(e) : ref::show(from<typename Json::value, VF>(got))));
        if (st == ref::Bad)
        {
            if (e != deserialization)
                cx.fail(who + ": parsing " + mc::showw(text) + " must be refused, it ended with " + (e ? cf::name(e) : ref::show(from<typename Json::value, VF>(got))));
            cx.outcome(2);
            return;
        }
        if (e)
            cx.fail(who + ": parsing " + mc::showw(text) + " ended with " + cf::name(e) + ", it denotes " + ref::show(want));
        auto g = from<typename Json::value, VF>(got);
        if (!ref::eq(g, want, ref::literal_cmp()))
            cx.fail(who + ": parsing " + mc::showw(text) + " gave " + ref::show(g) + ", it denotes " + ref::show(want));
        cx.outcome(shape_hash(g) ^ mc::mix(sizeof(SC) * 1000 + SF * 10 + sizeof(VC)));
    };
    judge(false);
    if constexpr (SF == VF && SF)
        judge(true);
}

template <class Json, int VF, class TC, int TF>
void dump_one(mc::Ctx& cx, const typename Json::value& v, bool esc, const char* name)
{
    using S = typename Json::template serializer_type<TC>;
    auto   want = from<typename Json::value, VF>(v);
    bool   ill  = false;
    struct W
    {
        static bool bad(const ref::V& v)
        {
            for (auto c : v.s)
                if (c == ref::bad)
                    return true;
            for (auto& x : v.a)
                if (bad(x))
                    return true;
            for (auto& m : v.o)
            {
                for (auto c : m.first)
                    if (c == ref::bad)
                        return true;
                if (bad(m.second))
                    return true;
            }
            return false;
        }
    };
    ill = W::bad(want);
    auto judge = [&](bool both)  // both: one setting for the encodings of the two sides, with_encoding
    {
        cx.eval();
        std::basic_string<TC> got;
        auto                  e = attempt(
            [&]
            {
                if constexpr (VF == TF && VF)
                    if (both)
                    {
                        got = Json::template dump<TC>(v, { S::template with_encoding<form<VF>::template enc>(), S::with_unicode_escaping(esc) });
                        return;
                    }
                if constexpr (VF && TF)
                    got = Json::template dump<TC>(v, { S::template with_source_encoding<form<VF>::template enc>(), S::template with_target_encoding<form<TF>::template enc>(), S::with_unicode_escaping(esc) });
                else if constexpr (VF)
                    got = Json::template dump<TC>(v, { S::template with_source_encoding<form<VF>::template enc>(), S::with_unicode_escaping(esc) });
                else if constexpr (TF)
                    got = Json::template dump<TC>(v, { S::template with_target_encoding<form<TF>::template enc>(), S::with_unicode_escaping(esc) });
                else if (esc)
                    got = Json::template dump<TC>(v, { S::with_unicode_escaping(esc) });
                else
                    got = Json::template dump<TC>(v);
            });
        auto who = std::string(name) + (both ? " (one encoding for both sides)" : "");
        if (cx.verbose)
            cx.note(who + " dump " + ref::show(want) + ": " + (e ? cf::name(e) : mc::showw(got)));
        if (ill)
        {
            if (e != serialization)
                cx.fail(who + ": dumping " + ref::show(want) + ", ill-formed text (bad = FFFFFFFF), must be refused, it ended with " + (e ? cf::name(e) : mc::showw(got)));
            cx.outcome(3);
            return;
        }
        if (e)
            cx.fail(who + ": dumping " + ref::show(want) + " ended with " + cf::name(e));
        ref::V back;
        auto   text = decode<TC, TF>(got);
        if (ref::parse_strict(text, back) != ref::Ok || !ref::eq(back, want, ref::Cmp()))
            cx.fail(who + ": dumping " + ref::show(want) + " wrote " + mc::showw(got));
        cx.outcome(shape_hash(back) ^ mc::mix(sizeof(TC) * 1000 + TF * 10 + 5));
    };
    judge(false);
    if constexpr (VF == TF && VF)
        judge(true);
}

static ref::V sample(uint64_t i)  // 32 code points in one array of strings and a key
{
    ref::V v = ref::V::object();
    ref::U all;
    for (uint32_t k = 0; k < 32; ++k)
    {
        uint32_t c = static_cast<uint32_t>(i * 32 + k);
        if (ref::scalar(c) && c != 0xFFFF)
            all.push_back(c);
    }
    v.o.emplace_back(all, ref::V::array({ ref::V::string(all), ref::V::string(all.substr(0, 1)) }));
    v.o.emplace_back(U"z", ref::V::string(all.substr(all.size() / 2)));
    return v;
}
// characters with a part of their own somewhere (marks, separators, noncharacters, the ends of ranges), alone and in pairs
static const ref::U& marks()
{
    static const ref::U m = U"a /\x7f\x80\x85\xa0\xad\xff\u0100\u02ff\u07ff\u0800\u1680\u180e\u200b\u200c\u200d\u200e\u200f\u2028\u2029\u202e\u2060\u2066\u3000\ud7ff\ue000\uefff\uf8ff\ufdd0\ufe0f\ufeff\ufff9\ufffc\ufffd\ufffe"
                            U"\U00010000\U0001d11e\U0001f600\U0001fffe\U0001ffff\U00020000\U0002feff\U0003ffff\U000e0001\U000e0100\U000fffff\U00100000\U0010feff\U0010fffe\U0010ffff";
    return m;
}
static ref::U mark_word(uint64_t i)
{
    ref::U u;
    for (auto x : mc::word(marks().size(), i))
        u += marks()[x];
    return u;
}
static ref::U text_of(uint64_t i)
{
    auto v   = sample(i);
    auto raw = [](const ref::U& s)
    {
        ref::U r;
        for (auto c : s)
            if (c >= 0x20)
            {
                if (c == '"' || c == '\\')
                    r += U'\\';
                r += c;
            }
        return r;
    };
    return U"{\"" + raw(v.o[0].first) + U"\":[\"" + raw(v.o[0].second.a[0].s) + U"\",\"" + raw(v.o[0].second.a[1].s) + U"\"],/*" + raw(v.o[1].second.s.substr(0, 3)) + U"*/\"z\\n\":\"\\t"
           + raw(v.o[1].second.s) + U"\\u00e9\\ud83d\\ude00\"}";
}

static bool TH;
// a document with a string and a key of n characters of every width; k is how the widths alternate
static ref::V long_sample(uint64_t i)
{
    static const char32_t ch[] = { 'a', 0xe9, 0x20ac, 0xffff - 2, 0x7f, 0x7ff, 0x800, 0x41 };
    static const char32_t wide[] = { 'a', 0x1f600, 0xe9, 0x10ffff, 0x20ac, 'b' };
    uint64_t              k = i % 3, n = mc::size_at(i / 3, TH ? 1200 : 100);
    ref::U                u;
    for (uint64_t j = 0; j < n; ++j)
        u += k == 0 ? ch[j % 8] : k == 1 ? wide[j % 6] : n % 2 ? U'\u20ac' : U'\U0001F600';
    ref::V v = ref::V::object();
    v.o.emplace_back(U"a" + u, ref::V::array({ ref::V::string(u), ref::V::string(U"\u00e9") }));
    v.o.emplace_back(U"z", ref::V::string(U"-" + u));
    return v;
}
static uint64_t long_cases()
{
    return ((TH ? 1200 : 100) + mc::big_sizes) * 3;
}

template <class Json, class SC, int SF, int VF>
void parse_pair(mc::Check& ck, const std::string& nm)
{
    auto* n = new std::string(nm);
    ck.add("parse " + nm, 0x110000 / 32, "every code point in keys, strings and comments, raw, with escapes among them",
           [n](mc::Ctx& cx, uint64_t i)
           {
               auto u = text_of(i);
               parse_one<Json, SC, SF, VF>(cx, encode<SC, SF>(u), n->c_str());
           });
    ck.add("long " + nm, long_cases(), "strings and keys of every length below 100 (1200) and of 12 lengths up to 131073, of characters of every width",
           [n](mc::Ctx& cx, uint64_t i)
           {
               auto v = long_sample(i);
               parse_one<Json, SC, SF, VF>(cx, encode<SC, SF>(U"{\"" + v.o[0].first + U"\":[\"" + v.o[0].second.a[0].s + U"\",\"\u00e9\"],/*" + v.o[0].first + U"*/\"z\":\"" + v.o[1].second.s + U"\"}"), n->c_str());
           });
    ck.add("marks " + nm, mc::words_upto(marks().size(), 2), "every pair of 52 special characters, and each alone, as the whole of a string and a key and between others",
           [n](mc::Ctx& cx, uint64_t i)
           {
               auto u = mark_word(i);
               parse_one<Json, SC, SF, VF>(cx, encode<SC, SF>(U"\"" + u + U"\""), n->c_str());
               parse_one<Json, SC, SF, VF>(cx, encode<SC, SF>(U"{\"" + u + U"\":[\"b" + u + U"\",\"" + u + U"c\"]}"), n->c_str());
           });
    auto& e = edge_units<SC, SF>();
    ck.add("ill " + nm, mc::words_upto(e.size(), TH ? 4 : 3) * 6, "all sequences of up to 3 (4) boundary units in a string, a key, a comment, before, after and in place of a token",
           [n](mc::Ctx& cx, uint64_t i)
           {
               static const char* pre[]  = { "[\"a", "{\"", "[1/*", "", "[1]", "[" };
               static const char* post[] = { "b\"]", "\":1}", "*/]", "[1]", "", ",1]" };
               auto               t      = encode<SC, SF>(ref::ascii(pre[i % 6]));
               for (auto x : mc::word(edge_units<SC, SF>().size(), i / 6))
                   t += static_cast<SC>(edge_units<SC, SF>()[x]);
               t += encode<SC, SF>(ref::ascii(post[i % 6]));
               parse_one<Json, SC, SF, VF>(cx, t, n->c_str());
           });
}
template <class Json, int VF, class TC, int TF>
void dump_pair(mc::Check& ck, const std::string& nm)
{
    using VC = typename Json::value::char_type;
    auto* n = new std::string(nm);
    ck.add("dump " + nm, 0x110000 / 32, "every code point in keys and strings, with and without unicode escaping",
           [n](mc::Ctx& cx, uint64_t i)
           {
               auto v = to<typename Json::value, VF>(sample(i));
               dump_one<Json, VF, TC, TF>(cx, v, false, n->c_str());
               dump_one<Json, VF, TC, TF>(cx, v, true, n->c_str());
           });
    ck.add("long-dump " + nm, long_cases(), "strings and keys of every length below 100 (1200) and of 12 lengths up to 131073, of characters of every width",
           [n](mc::Ctx& cx, uint64_t i)
           {
               auto v = to<typename Json::value, VF>(long_sample(i));
               dump_one<Json, VF, TC, TF>(cx, v, false, n->c_str());
               dump_one<Json, VF, TC, TF>(cx, v, true, n->c_str());
           });
    ck.add("marks-dump " + nm, mc::words_upto(marks().size(), 2), "every pair of 52 special characters, and each alone, as the whole of a string and a key and between others",
           [n](mc::Ctx& cx, uint64_t i)
           {
               auto   u = mark_word(i);
               ref::V o = ref::V::object();
               o.o.emplace_back(u, ref::V::array({ ref::V::string(U"b" + u), ref::V::string(u + U"c") }));
               for (bool esc : { false, true })
               {
                   dump_one<Json, VF, TC, TF>(cx, to<typename Json::value, VF>(ref::V::string(u)), esc, n->c_str());
                   dump_one<Json, VF, TC, TF>(cx, to<typename Json::value, VF>(o), esc, n->c_str());
               }
           });
    auto& e = edge_units<VC, VF>();
    ck.add("ill-dump " + nm, mc::words_upto(e.size(), TH ? 4 : 3), "all sequences of up to 3 (4) boundary units as a value's text, in a string, a key, alone; both escaping modes",
           [n](mc::Ctx& cx, uint64_t i)
           {
               std::basic_string<VC> s;
               for (auto x : mc::word(edge_units<VC, VF>().size(), i))
                   s += static_cast<VC>(edge_units<VC, VF>()[x]);
               if (!carried(s))
                   return;
               using V = typename Json::value;
               V a(configor::value_constant::array), o(configor::value_constant::object);
               a.data().vector->push_back(V(VC('x') + s));
               a.data().vector->push_back(V(1));
               o.data().object->emplace(s + VC('y'), V(true));
               for (bool esc : { false, true })
               {
                   dump_one<Json, VF, TC, TF>(cx, V(s), esc, n->c_str());
                   dump_one<Json, VF, TC, TF>(cx, a, esc, n->c_str());
                   dump_one<Json, VF, TC, TF>(cx, o, esc, n->c_str());
               }
           });
}

// encodings of the user's own that hold only part of the code points: ISO 8859-1, and one of the characters below U+0700 as
// one shifted unit (wide) or none above U+007F (narrow)
template <class Ch>
struct Latin
{
    static bool decode(std::basic_istream<Ch>& is, uint32_t& cp)
    {
        auto c = is.get();
        if (is.eof())
            return false;
        cp = static_cast<uint32_t>(static_cast<typename std::make_unsigned<Ch>::type>(std::char_traits<Ch>::to_char_type(c)));
        if (cp > 0xff)
            is.setstate(std::ios_base::failbit);
        return true;
    }
    static void encode(std::basic_ostream<Ch>& os, uint32_t cp)
    {
        if (cp > 0xff)
            os.setstate(std::ios_base::failbit);
        else
            os.put(static_cast<Ch>(cp));
    }
};
template <class Ch>
struct Few
{
    static const uint32_t most = sizeof(Ch) == 1 ? 0x7f : 0x6ff;
    static bool decode(std::basic_istream<Ch>& is, uint32_t& cp)
    {
        if (!Latin<Ch>::decode(is, cp) && is.eof())
            return false;
        is.clear(is.rdstate() & ~std::ios_base::failbit);
        if (cp > most)
            is.setstate(std::ios_base::failbit);
        return true;
    }
    static void encode(std::basic_ostream<Ch>& os, uint32_t cp)
    {
        if (cp > most)
            os.setstate(std::ios_base::badbit);
        else
            os.put(static_cast<Ch>(cp));
    }
};
template <class Json, template <class> class E>
void limited(mc::Ctx& cx, uint32_t c, uint32_t most)
{
    using Val = typename Json::value;
    using VC  = typename Val::char_type;
    using P   = typename Json::template parser_type<char>;
    using S   = typename Json::template serializer_type<char>;
    using O   = typename Json::template serializer_type<VC>;
    if (!ref::scalar(c) || c < 0x20 || c == '"' || c == '\\')
        return;
    U           raw(1, c);
    std::string hex;
    {
        char b[32];
        if (c < 0x10000)
            std::snprintf(b, sizeof b, "\\u%04x", c);
        else
            std::snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3ff));
        hex = b;
    }
    bool in = c <= most;
    // into the encoding: as itself and as an escape, in a string and in a key; a comment is not part of the value
    for (int tail = 0; tail < 2; ++tail)
    {
        std::string           z       = tail ? "" : "b";
        std::string           texts[] = { "[\"a" + ref::utf8(raw) + z + "\"]", "[\"a" + hex + z + "\"]", "{\"a" + ref::utf8(raw) + z + "\":1}", "{\"a" + hex + z + "\":1}", "[1/*" + ref::utf8(raw) + "*/]" };
        std::basic_string<VC> whole   = { VC('a'), static_cast<VC>(c) };
        if (!tail)
            whole += VC('b');
        for (int k = 0; k < 5; ++k)
        {
            Val  v;
            auto e    = attempt([&] { v = Json::template parse<char>(texts[k], { P::template with_source_encoding<encoding::utf8>(), P::template with_target_encoding<E>() }); });
            bool must = in || k == 4;
            cx.eval();
            if (must ? e : e != deserialization)
                cx.fail("parsing " + mc::show(texts[k]) + " into an encoding of U+0000 to U+" + std::to_string(most) + " (decimal) ended with " + (e ? cf::name(e) : "a value"));
            if (must && k < 4 && !(k < 2 ? v.is_array() && v[0].is_string() && *v[0].data().string == whole : v.is_object() && v.count(whole) == 1))
                cx.fail("parsing " + mc::show(texts[k]) + " into a limited encoding gave other characters");
        }
    }
    std::basic_string<VC> whole = { VC('a'), static_cast<VC>(c), VC('b') };
    // out of UTF-8 into the encoding, and back
    {
        json::value s = json::array{ json::value("a" + ref::utf8(raw) + "b") };
        json::value o(configor::value_constant::object);
        o["a" + ref::utf8(raw) + "b"] = 1;
        for (auto* v : { &s, &o })
            for (bool esc : { false, true })
            {
                std::basic_string<VC> t;
                auto                  e = attempt([&] { t = json::template dump<VC>(*v, { json::template serializer_type<VC>::template with_source_encoding<encoding::utf8>(), json::template serializer_type<VC>::template with_target_encoding<E>(), json::template serializer_type<VC>::with_unicode_escaping(esc) }); });
                bool                  ok = in || esc;
                cx.eval();
                if (ok ? e : e != serialization)
                    cx.fail("dumping U+" + std::to_string(c) + " (decimal) into a limited encoding, escaping " + (esc ? "on" : "off") + ", ended with " + (e ? cf::name(e) : "a text"));
                if (ok && !esc && t.find(whole) == t.npos && c != 0x7f && !(c >= 0x80 && c < 0xa0))
                    cx.fail("dumping U+" + std::to_string(c) + " (decimal) into a limited encoding gave other characters");
            }
    }
    // out of the encoding
    if (in)
    {
        Val         v = Val(whole);
        std::string t;
        auto        e = attempt([&] { t = Json::template dump<char>(v, { S::template with_source_encoding<E>(), S::template with_target_encoding<encoding::utf8>() }); });
        ref::V      back;
        cx.eval();
        if (e || ref::parse_strict(ref::dec(t), back) != ref::Ok || back.s != U"a" + raw + U"b")
            cx.fail("dumping U+" + std::to_string(c) + " (decimal) out of a limited encoding gave " + (e ? cf::name(e) : mc::show(t)));
    }
    else if (static_cast<uint32_t>(static_cast<typename std::make_unsigned<VC>::type>(static_cast<VC>(c))) == c)
    {
        auto e = attempt([&] { (void)Json::template dump<char>(Val(whole), { S::template with_source_encoding<E>(), S::template with_target_encoding<encoding::utf8>() }); });
        cx.eval();
        if (e != serialization)
            cx.fail("dumping U+" + std::to_string(c) + " (decimal), which the value's encoding does not have, ended with " + (e ? cf::name(e) : "a text"));
    }
    cx.outcome(in);
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C05";
    ck.part = "main";
    TH      = mc::is_thorough(argc, argv);
    ck.rule = "every code point, and every short sequence of boundary units, through every pair of encodings; a case is distinct by the encodings and the text";
    ck.assumptions = { "units that standard streams cannot carry (char16_t U+FFFF, 32-bit 0xFFFFFFFF) are left out", "sources may be 8, 16 or 32 bits wide; values and dumps are char or wchar_t, as the library formats through standard streams" };
#define PARSE(J, SC, SF, VF) parse_pair<J, SC, SF, VF>(ck, #SC "/" #SF "->" #J "/" #VF)
#define PARSE_ALL(J, VF)          \
    PARSE(J, char, 0, VF);        \
    PARSE(J, char, 8, VF);        \
    PARSE(J, wchar_t, 0, VF);     \
    PARSE(J, wchar_t, 8, VF);     \
    PARSE(J, wchar_t, 16, VF);    \
    PARSE(J, wchar_t, 32, VF);    \
    PARSE(J, char16_t, 0, VF);    \
    PARSE(J, char16_t, 8, VF);    \
    PARSE(J, char16_t, 16, VF);   \
    PARSE(J, char32_t, 0, VF);    \
    PARSE(J, char32_t, 16, VF);   \
    PARSE(J, char32_t, 32, VF)
    ck.add("limited encodings", 0x110000 / 64 + 1, "every code point (quick: all below U+2400, one in 64 above), as itself and as an escape, into and out of encodings of the user's own that do not have every code point, narrow and wide", [](mc::Ctx& cx, uint64_t i)
           {
               for (uint32_t k = 0; k < 64 && i * 64 + k < 0x110000; ++k)
               {
                   uint32_t c = static_cast<uint32_t>(i * 64 + k);
                   if (!TH && c >= 0x2400 && k != i % 64)
                       continue;
                   limited<json, Latin>(cx, c, 0xff);
                   limited<json, Few>(cx, c, 0x7f);
                   limited<wjson, Latin>(cx, c, 0xff);
                   limited<wjson, Few>(cx, c, 0x6ff);
               }
           });
    PARSE_ALL(json, 0);
    PARSE_ALL(wjson, 0);
    PARSE_ALL(wjson, 16);
    PARSE(json, char, 8, 8);
    PARSE(json, wchar_t, 32, 8);
    PARSE(json, char16_t, 16, 8);
    PARSE(wjson, char, 8, 8);
    PARSE(wjson, wchar_t, 8, 8);
    PARSE(wjson, wchar_t, 32, 32);
    PARSE(wjson, wchar_t, 16, 32);
    PARSE(wjson, char, 0, 32);
#define DUMP(J, VF, TC, TF) dump_pair<J, VF, TC, TF>(ck, #J "/" #VF "->" #TC "/" #TF)
#define DUMP_ALL(J, VF)      \
    DUMP(J, VF, char, 0);    \
    DUMP(J, VF, char, 8);    \
    DUMP(J, VF, wchar_t, 0); \
    DUMP(J, VF, wchar_t, 8); \
    DUMP(J, VF, wchar_t, 16); \
    DUMP(J, VF, wchar_t, 32)
    DUMP_ALL(json, 0);
    DUMP_ALL(json, 8);
    DUMP_ALL(wjson, 0);
    DUMP_ALL(wjson, 8);
    DUMP_ALL(wjson, 16);
    DUMP_ALL(wjson, 32);
    return mc::run(ck, argc, argv);
}
