// C03: string literals decode every escape and every character exactly.
#include "cfg.hpp"
using namespace cf;

static std::string hex4(uint32_t c, unsigned caps)  // caps: bit k makes digit k upper case
{
    std::string s;
    for (int k = 0; k < 4; ++k)
    {
        unsigned d = c >> (12 - 4 * k) & 15;
        s += d < 10 ? static_cast<char>('0' + d) : static_cast<char>((caps >> k & 1 ? 'A' : 'a') + d - 10);
    }
    return s;
}
// as a value, as a key, in the middle of other text; narrow and wide
static void all_places(mc::Ctx& cx, const ref::U& body, bool more = true)
{
    auto put = [&](const char* pre, const char* post)
    {
        ref::U u = ref::ascii(pre) + body + ref::ascii(post);
        check_parse<json, char>(cx, ref::utf8(u));
        if (more)
            check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(u));
    };
    put("\"", "\"");
    put("{\"", "\":1}");
    if (more)
        put("[\"x", "y\",\"\"]");
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C03";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "all escapes, all surrogate pairs, all code points, all element words and lengths within the stated bounds; a case is distinct by the "
              "string built (all refusals count as one)";
    ck.add("u-escape", 65536, "every \\uXXXX in all-lower, all-upper and two mixed cases, in values and keys, narrow and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               for (unsigned caps : { 0u, 15u, 5u, 10u })
                   all_places(cx, ref::ascii("\\u" + hex4(static_cast<uint32_t>(i), caps)), caps != 10);
           });
    ck.add("pairs", 1024 * 1024, "every surrogate pair escape",
           [th](mc::Ctx& cx, uint64_t i)
           {
               uint32_t lead = static_cast<uint32_t>(i % 1024), k = static_cast<uint32_t>(i / 1024);
               uint32_t trail = k;
               std::string s = "\\u" + hex4(0xD800 + lead, lead & 15) + "\\u" + hex4(0xDC00 + trail, trail & 15);
               check_parse<json, char>(cx, "\"" + s + "\"");
               if (k % 16 == 0)
                   all_places(cx, ref::ascii(s));
           });
    static const std::vector<uint32_t> leads = { 0xD800, 0xD801, 0xD83D, 0xDBFE, 0xDBFF };
    ck.add("lead-any", leads.size() * 65536, "5 lead surrogates each followed by every \\uXXXX",
           [](mc::Ctx& cx, uint64_t i)
           {
               auto s = "\"\\u" + hex4(leads[i % leads.size()], 0) + "\\u" + hex4(static_cast<uint32_t>(i / leads.size()), 15) + "\"";
               check_parse<json, char>(cx, s);
           });
    static const std::vector<uint32_t> lone = { 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF };
    static const std::vector<std::string> aft = { "", "a", "\\", "\\n", "\\u", "\\u0", "\\uD", "\\uDC0", "\\U" "DC00", "u" "DC00", "/uDC00", "\\\\uDC00", "\\u 0041", "\\ude0g", " ", "\xf0\x9f\x98\x80" };
    ck.add("lone", lone.size() * aft.size() * 3, "lone surrogate escapes followed by each of 16 continuations, closed, unclosed and in a key",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits  d(i);
               std::string b = "\\u" + hex4(lone[d(lone.size())], 0) + aft[d(aft.size())];
               switch (d(3))
               {
               case 0:
                   check_parse<json, char>(cx, "\"" + b + "\"");
                   break;
               case 1:
                   check_parse<json, char>(cx, "\"" + b);
                   break;
               case 2:
                   check_parse<json, char>(cx, "{\"" + b + "\":1}");
                   break;
               }
           });
    ck.add("codepoints", 0x110000 / 16, "every code point unescaped, in values and keys, narrow and wide, and after a backslash",
           [](mc::Ctx& cx, uint64_t i)
           {
               for (uint32_t k = 0; k < 16; ++k)
               {
                   uint32_t c = static_cast<uint32_t>(i * 16 + k);
                   if (!ref::scalar(c))
                       continue;
                   all_places(cx, ref::U(1, static_cast<char32_t>(c)), c < 0x3000 || c % 16 == 15);
                   check_parse<json, char>(cx, "\"\\" + ref::utf8(ref::U(1, static_cast<char32_t>(c))) + "\"");
               }
           });
    ck.add("hex-digit", 4 * 0x800, "each hex digit of an escape replaced by every code point below U+0800 (all aliases of digits modulo 256)",
           [](mc::Ctx& cx, uint64_t i)
           {
               ref::U u    = ref::ascii("\\u1a2B");
               u[2 + i % 4] = static_cast<char32_t>(i / 4);
               all_places(cx, u);
           });
    static const std::vector<ref::U> el = { U"a", U"\\n", U"\\\"", U"\\\\", U"\\u0041", U"\\ud83d\\ude00", U"\u00e9", U"\U0001f600", U"\\/", U"\uffff",
                                            U"\\ud83d", U"\\q", ref::U(1, 0x1f), U"\u007f", U"\\u00g0", U"\\u00", U"\"", U"\\u0000", U"\\t", U"\\ude00" };
    static const unsigned wl = th ? 5 : 4;
    ck.add("words", mc::words_upto(el.size(), wl), "all strings of up to " + std::to_string(wl) + " of 20 elements, narrow and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               ref::U u = U"\"";
               for (auto x : mc::word(el.size(), i))
                   u += el[x];
               u += U"\"";
               check_parse<json, char>(cx, ref::utf8(u));
               check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(u));
           });
    static const std::vector<ref::U> good = { U"a", U"\\n", U"\\u0041", U"\\uD83D\\uDE00", U"\u00e9", U"\u20ac", U"\U0001f600", U"\\\\" };
    static const unsigned N = th ? 9000 : 1200;
    ck.add("lengths", (N + mc::big_sizes) * (good.size() + 1), "strings of every length up to " + std::to_string(N - 1) + " and of 12 lengths up to 131073 of each of 8 elements and of all in turn, as value and as key",
           [N](mc::Ctx& cx, uint64_t i)
           {
               uint64_t e = i % (good.size() + 1), n = mc::size_at(i / (good.size() + 1), N);
               ref::U   u;
               for (uint64_t k = 0; k < n; ++k)
                   u += e < good.size() ? good[e] : good[k % good.size()];
               check_parse<json, char>(cx, ref::utf8(U"[\"" + u + U"\",\"z\"]"));
               check_parse<json, char>(cx, ref::utf8(U"{\"" + u + U"\":\"\"}"));
               check_parse<json, char>(cx, ref::utf8(U"[\"" + u));
               check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(U"\"" + u + U"\""));
           });
    // every truncation of documents with strings, and every control character at every place
    static const ref::U doc = U"{\"k\\u00e9y\\n\":[\"a\\\"b\\\\\\/\\b\\f\\n\\r\\t\",\"\\ud83d\\ude00\u00e9\u20ac\U0001f600\",\"\"]}";
    ck.add("cut", doc.size() * 2 + doc.size() * 34, "every prefix of a document, and every control character (and DEL, U+0080) inserted at every place",
           [](mc::Ctx& cx, uint64_t i)
           {
               ref::U u = doc;
               if (i < doc.size())
                   u = doc.substr(0, i);
               else if (i < 2 * doc.size())
                   u = doc.substr(0, i - doc.size()) + U'\0';
               else
               {
                   i -= 2 * doc.size();
                   uint32_t c = static_cast<uint32_t>(i % 34);
                   u.insert(i / 34, 1, static_cast<char32_t>(c < 32 ? c : c == 32 ? 0x7f : 0x80));
               }
               check_parse<json, char>(cx, ref::utf8(u));
               check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(u));
           });
    // keys that become equal only after decoding
    static const std::vector<std::string> kk = { "a", "\\u0061", "\\u0061b", "ab", "", "\\ud83d\\ude00", "\xf0\x9f\x98\x80", "\\u00e9", "\xc3\xa9", "\\u0000", "\\n" };
    ck.add("keys", mc::ipow(kk.size(), 3), "all objects of 3 of 11 keys in escaped and plain spellings",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits  d(i);
               std::string s = "{";
               for (int k = 0; k < 3; ++k)
                   s += (k ? ",\"" : "\"") + kk[d(kk.size())] + "\":" + std::to_string(k);
               check_parse<json, char>(cx, s + "}");
           });
    return mc::run(ck, argc, argv);
}
