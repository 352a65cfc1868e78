// C02: number literals are read exactly, or refused.
#include "cfg.hpp"
#include <cfloat>
using namespace cf;

static std::string dec128(unsigned __int128 x)
{
    std::string s;
    do
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(x % 10)));
    while (x /= 10);
    return s;
}
// the literal in the places where a number may stand
static void everywhere(mc::Ctx& cx, const std::string& s)
{
    check_parse<json, char>(cx, s);
    check_parse<json, char>(cx, "[" + s + "," + s + "]");
    check_parse<json, char>(cx, "{\"k\":" + s + "}");
    check_parse<json, char>(cx, s + "/**/");
    check_parse<wjson, wchar_t>(cx, std::wstring(s.begin(), s.end()));
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C02";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "all digit strings, all words over the characters of numbers, all neighbours of the limits, all sizes and exponents within the stated "
              "bounds; a case is distinct by the value read (all refusals count as one)";
    ck.assumptions = { "the denoted number is computed exactly (integers) or by strtold in 80-bit precision (floats, compared at relative 1e-12)" };

    static const unsigned nd = th ? 7 : 5;
    ck.add("digits", mc::words_upto(10, nd) * 3, "all digit strings of up to " + std::to_string(nd) + " digits with no sign, - and +",
           [](mc::Ctx& cx, uint64_t i)
           {
               std::string s(i % 3 == 0 ? "" : i % 3 == 1 ? "-" : "+");
               for (auto x : mc::word(10, i / 3))
                   s += static_cast<char>('0' + x);
               check_parse<json, char>(cx, s);
               check_parse<json, char>(cx, "[" + s + "]");
           });
    static const std::string nc = "+-0159.eE";
    static const unsigned    nl = th ? 8 : 6;
    ck.add("words", mc::words_upto(nc.size(), nl), "all words of up to " + std::to_string(nl) + " of 9 number characters, alone and in an array",
           [](mc::Ctx& cx, uint64_t i)
           {
               std::string s;
               for (auto x : mc::word(nc.size(), i))
                   s += nc[x];
               check_parse<json, char>(cx, s);
               check_parse<json, char>(cx, "[" + s + "]");
           });
    // what follows a number
    static const std::vector<std::string> lit = { "0", "-0", "1", "-12", "0.5", "1.25", "1e5", "1e+5", "12.5E-3", "-", "+", "1.", "1e", "1e+", "0.0", "9223372036854775807" };
    ck.add("follow", lit.size() * 0x300, "16 literals followed by every code point below U+0300, alone and in an array",
           [](mc::Ctx& cx, uint64_t i)
           {
               ref::U u = ref::ascii(lit[i % lit.size()]);
               u.push_back(static_cast<char32_t>(i / lit.size()));
               check_parse<json, char>(cx, ref::utf8(u));
               check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(u));
               u = ref::ascii("[") + u + ref::ascii("]");
               check_parse<json, char>(cx, ref::utf8(u));
               check_parse<wjson, wchar_t>(cx, ref::utf32<wchar_t>(u));
           });
    // around the limits: 2^k + d, 10^k + d, and multiples
    static const int D = th ? 400 : 40;
    ck.add("limits", (128 + 39) * (2ull * D + 1), "2^k (k<128) and 10^k (k<39), plus every offset up to " + std::to_string(D) + ", with no sign, - and +, in 5 contexts",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits        d(i);
               __int128          off = static_cast<int>(d(2 * D + 1)) - D;
               unsigned          k   = static_cast<unsigned>(d(128 + 39));
               unsigned __int128 x   = 1;
               if (k < 128)
                   x <<= k;
               else
                   for (unsigned j = 128; j < k; ++j)
                       x *= 10;
               if (off < 0 && x < static_cast<unsigned __int128>(-off))
                   return;
               x += static_cast<unsigned __int128>(off);
               auto s = dec128(x);
               everywhere(cx, s);
               everywhere(cx, "-" + s);
               everywhere(cx, "+" + s);
           });
    // every prefix and digit change of the limits themselves
    ck.add("limit-edits", 2 * 20 * 12, "every digit replaced, removed or doubled in 9223372036854775807 and ...808, each sign",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits  d(i);
               std::string s = d(2) ? "9223372036854775807" : "9223372036854775808";
               size_t      p = d(20);
               unsigned    e = static_cast<unsigned>(d(12));
               if (p >= s.size())
                   return;
               if (e < 10)
                   s[p] = static_cast<char>('0' + e);
               else if (e == 10)
                   s.erase(p, 1);
               else
                   s.insert(p, 1, s[p]);
               everywhere(cx, s);
               everywhere(cx, "-" + s);
               everywhere(cx, "+" + s);
           });
    static const unsigned L = th ? 1200 : 420;
    ck.add("lengths", L * 9ull * 8, "digit strings of every length up to " + std::to_string(L) + " and every leading digit, as integer and in 7 float forms",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits  d(i);
               unsigned    form = static_cast<unsigned>(d(8));
               char        lead = static_cast<char>('1' + d(9));
               unsigned    n    = static_cast<unsigned>(d(L)) + 1;
               std::string s    = std::string(1, lead) + std::string(n - 1, form % 2 ? '0' : '7');
               switch (form / 2)
               {
               case 1:
                   s += ".5";
                   break;
               case 2:
                   s = "0." + std::string(form % 2 ? n : 0, '0') + s;
                   break;
               case 3:
                   s += "e-" + std::to_string(form % 2 ? n : n / 2 + 1);
                   break;
               }
               check_parse<json, char>(cx, s);
               check_parse<json, char>(cx, "-" + s);
               check_parse<json, char>(cx, "[" + s + ",0]");
           });
    static const std::vector<std::string> mant = { "1",   "9",    "5",      "10",     "1.5",    "0.1",     "0.5",   "9.99",     "1.7976931348623", "2.2250738585072014", "4.9406564584124654",
                                                   "123", "0.25", "0.0001", "100000", "12.345", "0.00000", "0.000", "3.14159265358979", "99999999999999999999", "18446744073709551616", "7.0", "1.000000000001" };
    static const int X = th ? 2000 : 420;
    ck.add("exponents", mant.size() * (2ull * X + 1) * 4, "23 mantissas with every exponent from -" + std::to_string(X) + " to " + std::to_string(X) + ", e and E, with and without sign and leading zeros",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits  d(i);
               auto        m = mant[d(mant.size())];
               int         e = static_cast<int>(d(2 * X + 1)) - X;
               auto        v = d(4);
               std::string t = v & 1 ? "E" : "e";
               if (e < 0)
                   t += "-";
               else if (v & 2)
                   t += "+";
               if ((v & 2) && e <= 0)
                   t += e < 0 ? "00" : "";
               t += std::to_string(e < 0 ? -e : e);
               check_parse<json, char>(cx, m + t);
               check_parse<json, char>(cx, "-" + m + t);
               check_parse<json, char>(cx, "[" + m + t + "]");
           });
    ck.add("big-exponents", 6 * 200, "exponents of every length up to 200 digits, both signs, for zero and nonzero mantissas",
           [](mc::Ctx& cx, uint64_t i)
           {
               unsigned    n = static_cast<unsigned>(i / 6) + 1;
               std::string m = i % 3 == 0 ? "1" : i % 3 == 1 ? "0.0" : "-2.5";
               for (char c : { '1', '4', '9', '0' })
                   check_parse<json, char>(cx, m + (i % 6 < 3 ? "e+" : "e-") + std::string(n, c));
           });
    // long fractions and exponents together: value near 1
    ck.add("balanced", 290 * 4, "0.<n zeros>123e+n and 123<n zeros>e-n for every n below 290",
           [](mc::Ctx& cx, uint64_t i)
           {
               size_t n = i / 4;
               auto   z = std::string(n, '0');
               auto   e = std::to_string(i % 2 ? n + 3 : n);
               std::string s = i % 4 < 2 ? "0." + z + "123e+" + e : "123" + z + "e-" + e;
               check_parse<json, char>(cx, s);
               check_parse<json, char>(cx, "[-" + s + "]");
           });
    // numbers after numbers: nothing of one is left for the next
    static const std::vector<std::string> seq = { "1", "-1", "0", "-0.0", "2.5", "-3e+2", "9223372036854775807", "-9223372036854775808", "1e-3", "+4" };
    ck.add("sequences", mc::ipow(10, th ? 5 : 4), "all arrays of 4 (5) of 10 numbers: no number affects the next",
           [th](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits  d(i);
               std::string s = "[";
               for (int k = 0; k < (th ? 5 : 4); ++k)
                   s += (k ? "," : "") + seq[d(10)];
               check_parse<json, char>(cx, s + "]");
           });
    ck.known.push_back({ "dbl-max", "1.7976931348623157e308 is refused as out of range",
                         [](mc::Ctx& cx)
                         {
                             auto e = attempt([&] { (void)json::parse("1.7976931348623157e308"); });
                             if (e != none)
                                 cx.fail(std::string("1.7976931348623157e308 is refused: ") + name(e));
                         } });
    return mc::run(ck, argc, argv);
}
