// C01: parsing accepts exactly the documented dialect and builds that value.
#include "cfg.hpp"
using namespace cf;

static std::string join(const std::vector<std::string>& al, const std::vector<unsigned>& w)
{
    std::string s;
    for (auto x : w)
        s += al[x];
    return s;
}
static std::wstring widen(const std::string& s)
{
    return std::wstring(s.begin(), s.end());
}

// documents used as bases for mutation: every construct of the dialect
static std::vector<std::string> bases()
{
    return {
        "[1,2]", "{\"a\":1}", "[]", "{}", "[true,false,null]", "{\"a\":{\"b\":[]},\"c\":\"d\"}", " [ 1 , 2 ] ", "\"ab\\n\"", "-12.5e+3",
        "1.5", "120", "-7", "0", "0.25", "true", "false", "null", "[[],[[]],{}]", "{\"k\":\"v\",\"k\":2}", "/*c*/1//d", "[1,/*x*/2,]",
        "//a\n{\"a\"/**/:/***/1,}", "{\"a\":[1,{\"b\":null}],\"c\":-0.5}", "[\"\\u0041\",\"\\ud83d\\ude00\"]", "+3", "[+1,-1]", "\"\"",
        "[1e5,1E-2,2.5E+1]", "{\"\":\"\"}", "[null]\n", "\r\n\t 5 \t", "[\"a\",\"b\",[\"c\"]]",
    };
}

// parsing into values that hold something already: the document replaces it
static void check_into(mc::Ctx& cx, const std::string& text)
{
    ref::V            want;
    const ref::Status st = ref::parse(ref::dec(text), want, ref::Limits());
    using ref::V;
    static const std::vector<V> olds = { V(), V::boolean(true), V::integer(-7), V::floating(2.5), V::string(U"old text"), V::array(), V::array({ V::integer(9), V::array({ V() }), V::string(U"z") }), V::object(),
                                         V::object({ { U"a", V::integer(5) }, { U"zz", V::object({ { U"a", V() } }) } }) };
    for (auto& old : olds)
        for (int way = 0; way < 3; ++way)
        {
            json::value v = to<json::value>(old);
            auto        e = attempt([&]
                             {
                                 std::istringstream is(text);
                                 if (way == 0)
                                     json::parse(v, is);
                                 else if (way == 1)
                                     json::parse(v, text);
                                 else
                                     is >> json::wrap(v);
                             });
            cx.eval();
            if (way == 2 && text.find_first_not_of(" \t\n\r") == text.npos)
                continue;  // an extraction that finds nothing
            if ((st == ref::Ok) != (e == none) || (st == ref::Ok && !ref::eq(from(v), want, ref::literal_cmp())) || (e && e != deserialization))
                cx.fail("parsing " + mc::shows(text) + " into a value that holds " + ref::show(old) + (e ? std::string(" ended with ") + name(e) : " gave " + ref::show(from(v))) + ", the text "
                        + (st == ref::Ok ? "denotes " + ref::show(want) : "is no document"));
        }
    cx.outcome(st == ref::Ok ? shape_hash(want) : 1);
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id       = "C01";
    ck.part     = "main";
    bool th     = mc::is_thorough(argc, argv);
    ck.rule     = "every word of the stated alphabets up to the stated length, every one-edit mutation of the base documents, every size up to the "
                  "stated bounds; a case is distinct by the value built (all refusals count as one outcome)";
    ck.assumptions = { "reference parser harness/ref.hpp reads the dialect as stated in the property" };

    // 1. token words
    static const std::vector<std::string> tok = { "1", "[", "]", ",", "{", "}", "\"a\"", ":", "null", "\"b\"", " ", "/**/", "-2.5", "true" };
    unsigned tl = th ? 7 : 5;
    uint64_t tn = mc::words_upto(tok.size(), tl);
    ck.add("tokens", tn, "all words of up to " + std::to_string(tl) + " of 14 tokens",
           [](mc::Ctx& cx, uint64_t i) { check_parse<json, char>(cx, join(tok, mc::word(tok.size(), i))); });
    // 2. structural tokens, longer
    static const std::vector<std::string> stok = { "1", "[", "]", ",", "{", "}", "\"a\":", "\"b\":" };
    unsigned sl = th ? 9 : 7;
    ck.add("structure", mc::words_upto(stok.size(), sl), "all words of up to " + std::to_string(sl) + " of 8 structural tokens",
           [](mc::Ctx& cx, uint64_t i) { check_parse<json, char>(cx, join(stok, mc::word(stok.size(), i))); });
    static const unsigned ul = th ? 5 : 3;
    ck.add("used targets", mc::words_upto(tok.size(), ul) + mc::words_upto(stok.size(), ul + 1), "all words of up to " + std::to_string(ul) + " of the 14 tokens and " + std::to_string(ul + 1) + " of the structural ones parsed into 9 values that hold something, 3 ways",
           [](mc::Ctx& cx, uint64_t i)
           {
               uint64_t n = mc::words_upto(tok.size(), ul);
               check_into(cx, i < n ? join(tok, mc::word(tok.size(), i)) : join(stok, mc::word(stok.size(), i - n)));
           });
    // 3. character words
    static const std::string chars = "1[],{}\":0-+.e/* tn\\\nu";
    unsigned                 cl    = th ? 6 : 4;
    ck.add("chars", mc::words_upto(chars.size(), cl), "all strings of up to " + std::to_string(cl) + " of 21 characters",
           [](mc::Ctx& cx, uint64_t i)
           {
               std::string s;
               for (auto x : mc::word(chars.size(), i))
                   s += chars[x];
               check_parse<json, char>(cx, s);
           });
    // 4. comments
    static const std::string cch = std::string("/*x\n\r 1\"", 8) + std::string(1, '\0');
    unsigned                 ccl = th ? 8 : 6;
    ck.add("comments", mc::words_upto(cch.size(), ccl), "all strings of up to " + std::to_string(ccl) + " of 9 comment characters, alone",
           [](mc::Ctx& cx, uint64_t i)
           {
               std::string s;
               for (auto x : mc::word(cch.size(), i))
                   s += cch[x];
               check_parse<json, char>(cx, s);
           });
    unsigned cil = th ? 7 : 5;
    ck.add("comments-in", mc::words_upto(cch.size(), cil) * 6, "all strings of up to " + std::to_string(cil) + " comment characters at 6 places of a document",
           [](mc::Ctx& cx, uint64_t i)
           {
               std::string s;
               for (auto x : mc::word(cch.size(), i / 6))
                   s += cch[x];
               static const char* pre[]  = { "[1", "[", "{\"a\"", "{\"a\":", "{\"a\":1,", "" };
               static const char* post[] = { ",2]", "1]", ":1}", "1}", "\"b\":2}", "5" };
               check_parse<json, char>(cx, pre[i % 6] + s + post[i % 6]);
           });
    // 5. one-edit mutations, all byte values
    static const auto base = bases();
    static std::vector<uint64_t> off;
    {
        uint64_t o = 0;
        for (auto& b : base)
        {
            off.push_back(o);
            o += (2 * b.size() + 1) * 256 + b.size();
        }
        off.push_back(o);
    }
    auto mutate = [](uint64_t i)
    {
        size_t b = 0;
        while (off[b + 1] <= i)
            ++b;
        i -= off[b];
        std::string s = base[b];
        if (i < s.size())
            return s.erase(i, 1);
        i -= s.size();
        char   c = static_cast<char>(i % 256);
        size_t p = i / 256;
        if (p < s.size())
            s[p] = c;
        else
            s.insert(p - s.size(), 1, c);
        return s;
    };
    ck.add("edit1", off.back(), "every deletion, replacement and insertion of any byte at any place of 32 base documents",
           [mutate](mc::Ctx& cx, uint64_t i) { check_parse<json, char>(cx, mutate(i)); });
    ck.add("edit1-wide", off.back(), "the same with wide characters (byte values above 127 become U+0080..U+00FF)",
           [mutate](mc::Ctx& cx, uint64_t i)
           {
               auto         s = mutate(i);
               std::wstring w;
               for (unsigned char c : s)
                   w.push_back(c);
               check_parse<wjson, wchar_t>(cx, w);
           });
    // 6. two edits over a small alphabet
    static const std::string ea = "\",:[]{}1 /*-e.\\tn";
    static std::vector<uint64_t> off2;
    static const size_t          nb2 = th ? base.size() : 8;
    {
        uint64_t o = 0;
        for (size_t b = 0; b < nb2; ++b)
        {
            off2.push_back(o);
            uint64_t k = (2 * base[b].size() + 1) * ea.size() + base[b].size();
            o += k * (k + 4 * ea.size());
        }
        off2.push_back(o);
    }
    ck.add("edit2", off2.back(), "every pair of successive edits over 18 characters on the first " + std::to_string(nb2) + " base documents",
           [](mc::Ctx& cx, uint64_t i)
           {
               size_t b = 0;
               while (off2[b + 1] <= i)
                   ++b;
               i -= off2[b];
               std::string s    = base[b];
               uint64_t    k    = (2 * s.size() + 1) * ea.size() + s.size();
               auto        edit = [&](uint64_t x)
               {
                   if (x < s.size())
                   {
                       s.erase(x, 1);
                       return true;
                   }
                   x -= s.size();
                   char   c = ea[x % ea.size()];
                   size_t p = x / ea.size();
                   if (p < s.size())
                       s[p] = c;
                   else if (p - s.size() <= s.size())
                       s.insert(p - s.size(), 1, c);
                   else
                       return false;
                   return true;
               };
               if (edit(i % k) && edit(i / k))
                   check_parse<json, char>(cx, s);
           });
    // 7. each item followed by each code point, in each context
    static const std::vector<std::string> items = { "1", "-1", "0", "12.5", "1e5", "true", "false", "null", "\"s\"", "[]", "{}", "[1]", "{\"a\":1}", "" };
    static const std::vector<std::pair<std::string, std::string>> ctxs = { { "", "" },       { "[", "]" },         { "[1,", "]" },
                                                                           { "[", ",2]" },   { "{\"k\":", "}" },   { "{\"k\":", ",\"l\":2}" },
                                                                           { "[[", "],3]" }, { "{\"a\":[", "]}" } };
    static std::vector<uint32_t> follow;
    for (uint32_t c = 0; c < 0x250; ++c)
        follow.push_back(c);
    for (uint32_t hi : { 0x01u, 0x02u, 0x20u, 0x30u, 0xFEu, 0xFFu, 0x100u, 0x1F6u })
        for (uint32_t lo = 0; lo < 256; ++lo)
            if (ref::scalar(hi * 256 + lo))
                follow.push_back(hi * 256 + lo);
    ck.add("follow", follow.size() * items.size() * ctxs.size(), "14 items x 8 contexts x 2600 following code points (all aliases of ASCII modulo 256), narrow and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               auto       c  = follow[d(follow.size())];
               auto&      it = items[d(items.size())];
               auto&      ct = ctxs[d(ctxs.size())];
               ref::U     u  = ref::ascii(ct.first + it);
               u.push_back(c);
               u += ref::ascii(ct.second);
               check_parse<json, char>(cx, ref::utf8(u));
               check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(u));
           });
    // 7b. any code point in any gap of a document, its beginning and end among them
    static const std::vector<std::string> whole = { "", "1", "[1]", "\"s\"", " true", "{\"k\": -2.5 , \"l\":[null,\"\\u0041\"]}", "/*c*/[0.5e+1,]//d", "//d\n{}\n" };
    static std::vector<std::pair<unsigned, unsigned>> gaps;
    for (unsigned d = 0; d < whole.size(); ++d)
        for (unsigned g = 0; g <= whole[d].size(); ++g)
            gaps.emplace_back(d, g);
    ck.add("code points", 0x110000 / 64, "8 documents with each code point (quick: those below U+0300, in U+2000..U+206F and U+FE00..U+FFFF, and one in 64 of the others) inserted, once and twice, at every place, narrow and wide",
           [th](mc::Ctx& cx, uint64_t i)
           {
               for (uint32_t k = 0; k < 64; ++k)
               {
                   uint32_t c = static_cast<uint32_t>(i * 64 + k);
                   if (!ref::scalar(c) || (!th && !(c < 0x300 || (c >= 0x2000 && c < 0x2070) || c == 0x3000 || (c >= 0xFE00 && c < 0x10000) || k == i % 64)))
                       continue;
                   for (auto& g : gaps)
                       for (unsigned n = 1; n < 3; ++n)
                       {
                           ref::U u = ref::ascii(whole[g.first]);
                           u.insert(g.second, n, c);
                           check_parse<json, char>(cx, ref::utf8(u));
                                                  check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(u));
                       }
               }
           });
    // 8. sizes
    static const unsigned N = th ? 5000 : 1100;
    ck.add("sizes", (N + mc::big_sizes) * 12ull, "each of 12 constructs at every size 0.." + std::to_string(N - 1) + " and at 12 sizes up to 131073",
           [](mc::Ctx& cx, uint64_t i)
           {
               unsigned    n = static_cast<unsigned>(mc::size_at(i / 12, N));
               std::string s;
               switch (i % 12)
               {
               case 0:  // array of n numbers
                   for (unsigned k = 0; k < n; ++k)
                       s += (k ? "," : "") + std::to_string(k);
                   s = "[" + s + "]";
                   break;
               case 1:  // object of n members
                   for (unsigned k = 0; k < n; ++k)
                       s += (k ? ",\"k" : "\"k") + std::to_string(k * 7919 % 10007) + "\":" + std::to_string(k);
                   s = "{" + s + "}";
                   break;
               case 2:  // string of n
                   s = "[\"" + std::string(n, 'q') + "\",1]";
                   break;
               case 3:  // key of n
                   s = "{\"" + std::string(n, 'q') + "\":1}";
                   break;
               case 4:  // white space
                   s = "[" + std::string(n, ' ') + "1" + std::string(n, '\t') + "," + std::string(n, '\n') + "2" + std::string(n, '\r') + "]";
                   break;
               case 5:  // block comment of n
                   s = "[1/*" + std::string(n, '*') + "*/,2]";
                   break;
               case 6:  // line comment of n
                   s = "[1//" + std::string(n, '/') + "\n,2]";
                   break;
               case 7:  // n comments
                   for (unsigned k = 0; k < n; ++k)
                       s += k % 2 ? "/**/" : "//\n";
                   s = "[1" + s + ",2]";
                   break;
               case 8:  // array of n empty containers and strings
                   for (unsigned k = 0; k < n; ++k)
                       s += k % 3 == 0 ? "[]," : k % 3 == 1 ? "{}," : "\"\",";
                   s = "[" + s + "]";
                   break;
               case 9:  // n missing the end
                   for (unsigned k = 0; k < n; ++k)
                       s += "1,";
                   s = "[" + s;
                   break;
               case 10:  // leading digits
                   s = std::string(n % 400, '1') + (n >= 300 ? "" : ".5");
                   if (n >= 400)
                       s = "[" + s + "]";
                   break;
               case 11:  // block comment of n other characters
                   s = "/*" + std::string(n, '/') + "*/" + (n % 2 ? "true" : "[false]") + "/*" + std::string(n, 'a');
                   if (n % 3)
                       s += "*/";
                   break;
               }
               check_parse<json, char>(cx, s);
               check_parse<wjson, wchar_t>(cx, widen(s));
           });
    // 9. nesting
    static const unsigned D = th ? 1500 : 600;
    ck.add("depth", D * 6ull, "nesting of 6 shapes at every depth 0.." + std::to_string(D - 1) + ", complete, one bracket missing, one too many",
           [](mc::Ctx& cx, uint64_t i)
           {
               unsigned    n = static_cast<unsigned>(i / 6), v = i % 6;
               std::string a, b;
               for (unsigned k = 0; k < n; ++k)
               {
                   bool arr = v == 0 || v == 3 || (v == 2 && k % 2) || (v == 5 && k % 3);
                   a += arr ? (v == 3 ? "[1," : "[") : "{\"a\":";
                   b = (arr ? (v == 3 ? ",2]" : "]") : (v == 4 ? ",\"b\":2}" : "}")) + b;
               }
               check_parse<json, char>(cx, a + "7" + b);
               if (n)
               {
                   check_parse<json, char>(cx, a + "7" + b.substr(0, b.size() - 1));
                   check_parse<json, char>(cx, a + "7" + b + b.back());
                   std::string c = b;
                   c[c.size() / 2] = c[c.size() / 2] == ']' ? '}' : ']';
                   check_parse<json, char>(cx, a + "7" + c);
               }
           },
           60, 24);
    // 10. repeated keys
    static const std::vector<std::string> keys = { "a", "b", "", "aa", "\\u0061" };
    unsigned kl = th ? 6 : 5;
    ck.add("keys", mc::words_upto(keys.size(), kl), "objects with every sequence of up to " + std::to_string(kl) + " of 5 keys (two spellings equal)",
           [](mc::Ctx& cx, uint64_t i)
           {
               std::string s = "{";
               int         n = 0;
               for (auto x : mc::word(keys.size(), i))
                   s += (n++ ? ",\"" : "\"") + keys[x] + "\":" + std::to_string(n);
               check_parse<json, char>(cx, s + "}");
           });
    // 11. all documents of a small grammar, with a separator string after every token
    static const std::vector<std::string> sep = { "", " ", "/*,*/", "//]\n", "\t\r\n", "/*\"*/ //\"\n" };
    static const std::vector<std::vector<std::string>> docs = {
        { "[", "1", "," , "\"x\"", "]" }, { "{", "\"a\"", ":", "[", "]", "," , "\"b\"", ":", "null", "}" }, { "[", "[", "true", "]", ",", "{", "}", "]" },
        { "-1.5" }, { "\"s\"" }, { "[", "1", ",", "]" }, { "{", "\"a\"", ":", "2", ",", "}" },
    };
    static std::vector<uint64_t> soff{ 0 };
    if (soff.size() == 1)
        for (auto& d : docs)
            soff.push_back(soff.back() + mc::ipow(sep.size(), static_cast<unsigned>(std::min<size_t>(d.size() + 1, th ? 7 : 6))));
    ck.add("separators", soff.back(), "every assignment of 6 white space strings to the first gaps of 7 documents",
           [](mc::Ctx& cx, uint64_t i)
           {
               size_t d = 0;
               while (soff[d + 1] <= i)
                   ++d;
               mc::Digits  g(i - soff[d]);
               std::string s = sep[g(sep.size())];
               for (auto& t : docs[d])
                   s += t + sep[g(sep.size())];
               check_parse<json, char>(cx, s);
           });
    // 12. literals of every small misspelling
    static const std::string lc = "truefalsn lT1";
    ck.add("literals", mc::words_upto(8, th ? 7 : 6), "all strings of up to 6 (7) of the letters t r u e f a l s n, alone and in an array",
           [](mc::Ctx& cx, uint64_t i)
           {
               static const char* al = "truefnla";
               std::string        s;
               for (auto x : mc::word(8, i))
                   s += al[x];
               check_parse<json, char>(cx, s);
               if (s.size() < 6)
                   check_parse<json, char>(cx, "[" + s + "]");
           });
    return mc::run(ck, argc, argv);
}
