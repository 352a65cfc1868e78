// C08: numbers are dumped exactly, at the requested precision, or refused.
#include "trees.hpp"
#include <algorithm>
#include <sstream>
using namespace cf;

// a decimal number as sign, digits without leading and trailing zeros, and the exponent of 0.digits
struct Dec
{
    bool        neg = false, zero = true;
    std::string digits;
    long        exp = 0;
    bool operator==(const Dec& o) const { return zero == o.zero && (zero || (neg == o.neg && digits == o.digits && exp == o.exp)); }
};
static bool read_dec(const std::string& s, Dec& d, bool& point)
{
    size_t i = 0;
    point    = false;
    if (i < s.size() && s[i] == '-')
        d.neg = true, ++i;
    std::string ip, fp;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i])))
        ip += s[i++];
    if (ip.empty() || (ip.size() > 1 && ip[0] == '0'))
        return false;
    if (i < s.size() && s[i] == '.')
    {
        point = true;
        ++i;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i])))
            fp += s[i++];
        if (fp.empty())
            return false;
    }
    long e = 0;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
        point = true;
        ++i;
        bool n = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+'))
            n = s[i++] == '-';
        if (i >= s.size())
            return false;
        for (; i < s.size(); ++i)
        {
            if (!isdigit(static_cast<unsigned char>(s[i])))
                return false;
            e = e * 10 + (s[i] - '0');
        }
        if (n)
            e = -e;
    }
    if (i != s.size())
        return false;
    std::string all = ip + fp;
    long        ex  = static_cast<long>(ip.size()) + e;
    size_t      k   = 0;
    while (k < all.size() && all[k] == '0')
        ++k, --ex;
    all = all.substr(k);
    while (!all.empty() && all.back() == '0')
        all.pop_back();
    d.zero   = all.empty();
    d.digits = all;
    d.exp    = d.zero ? 0 : ex;
    return true;
}

enum Fmt
{
    General,
    Fixed,
    Scientific,
    Hex
};
static const std::ios_base::fmtflags flag_of[] = { std::ios_base::fmtflags(0), std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific };

template <class Ch>
std::string narrow(const std::basic_string<Ch>& s)
{
    std::string r;
    for (auto c : s)
        r += c < 0x80 && c >= 0 ? static_cast<char>(c) : '?';
    return r;
}
// a precision of -1 stands for none given; other negative ones are given and mean the default of six digits, as in printf
enum Route
{
    Option,  // with_precision
    Stream,  // the stream's own precision and format
    Wrap     // a wrapped value written to a stream
};
template <class Json>
std::string written(double d, int prec, Fmt f, Route r)
{
    using V  = typename Json::value;
    using Ch = typename V::char_type;
    using S  = typename Json::serializer;
    V v(d);
    if (r == Option)
    {
        if (prec == -1)
            return narrow(Json::template dump<Ch>(v));
        return narrow(Json::template dump<Ch>(v, { S::with_precision(prec, flag_of[f]) }));
    }
    std::basic_ostringstream<Ch> os;
    if (prec != -1)
    {
        os.precision(prec);
        os.setf(flag_of[f], std::ios_base::floatfield);
    }
    if (r == Stream)
        Json::template dump<Ch>(os, v);
    else
        os << Json::wrap(v);
    return narrow(os.str());
}
template <class Json>
void one(mc::Ctx& cx, double d, int prec, Fmt f, Route r)
{
    cx.eval();
    std::string got;
    auto        what = [&] { return std::to_string(d) + " at precision " + std::to_string(prec) + " format " + std::to_string(f) + " route " + std::to_string(r); };
    auto        e    = attempt([&] { got = written<Json>(d, prec, f, r); });
    if (!std::isfinite(d))
    {
        if (e != serialization)
            cx.fail("dumping " + what() + " must be refused, it ended with " + (e ? name(e) : got.c_str()));
        cx.outcome(5);
        return;
    }
    if (e)
        cx.fail("dumping " + what() + " ended with " + name(e));
    char        buf[2000];
    Dec         a, b;
    bool        point = false, dummy;
    std::string want;
    // whole numbers of 64 bits are exact
    if (d == std::floor(d) && d >= -9223372036854775808.0 && d < 9223372036854775808.0)
        want = std::to_string(static_cast<long long>(d));
    else
    {
        std::snprintf(buf, sizeof buf, prec == -1 || f == General || f == Hex ? "%.*g" : f == Fixed ? "%.*f" : "%.*e", prec < 0 ? 6 : prec, d);
        want = buf;
    }
    if (cx.verbose)
        cx.note(what() + " -> " + got + ", reference " + want);
    if (!read_dec(got, a, point))
        cx.fail("dumping " + what() + " wrote " + got + ", which is not a JSON number");
    if (!point)
        cx.fail("dumping " + what() + " wrote " + got + " without a point or an exponent");
    if (!read_dec(want, b, dummy))
        cx.fail("reference cannot be read: " + want);
    if (!(a == b))
        cx.fail("dumping " + what() + " wrote " + got + ", the number rounds to " + want);
    cx.outcome(mc::hash(got));
}
static void all_settings(mc::Ctx& cx, double d, const std::vector<int>& precs)
{
    for (auto r : { Option, Stream, Wrap })
    {
        one<json>(cx, d, -1, General, r);
        for (int p : precs)
            for (auto f : { General, Fixed, Scientific })
                one<json>(cx, d, p, f, r);
        if (r == Option)
            one<json>(cx, d, 5, Hex, r);
        one<wjson>(cx, d, 7, Fixed, r);
        one<wjson>(cx, d, 9, General, r);
    }
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C08";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "boundary integers and all small ones; floats of every exponent and decimal fractions under every precision up to 20 and every format, through options, stream settings "
              "and wrapped output; a case is distinct by the text written";
    ck.assumptions = { "the C library's printf rounds as the property asks (numbers are compared, not spellings)" };
    ck.add("integers", trees::integer_count + 20001, "integers within 20 of every power of two and ten, and all of up to four digits, alone and in containers, narrow and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               int64_t n = i < trees::integer_count ? trees::integer_of(i) : static_cast<int64_t>(i - trees::integer_count) - 10000;
               auto    want = std::to_string(n);
               cx.eval();
               json::value  v(n);
               wjson::value w(n);
               auto         a = json::dump(v);
               auto         b = narrow(wjson::dump(w));
               auto         c = json::dump(json::value(json::array{ n, n, "x" }), { json::serializer::with_precision(2) });
               std::ostringstream os;
               os.precision(3);
               os.setf(std::ios_base::scientific, std::ios_base::floatfield);
               os << json::wrap(v) << json::wrap(n);
               cx.note(want + " -> " + a);
               if (a != want || b != want || c != "[" + want + "," + want + ",\"x\"]" || os.str() != want + want)
                   cx.fail("the integer " + want + " was dumped as " + a + ", " + b + ", " + c + ", " + os.str());
               cx.outcome(mc::hash(a));
           });
    static std::vector<int> precs;
    for (int p = 0; p <= 20; ++p)
        if (th || p < 4 || p % 3 == 2)
            precs.push_back(p);
    if (th)
        precs.insert(precs.end(), { 25, 40, 100, 330 });
    ck.add("floats", trees::float_count, "floats of every exponent with 12 mantissas and both signs (including infinities and NaN) under " + std::to_string(precs.size()) + " precisions and 3 formats (quick: every 5th exponent)",
           [th](mc::Ctx& cx, uint64_t i)
           {
               if (!th && i / 24 % 5 && i / 24 != 2047 && i / 24 > 3)
                   return;
               all_settings(cx, trees::float_of(i), precs);
           });
    ck.add("decimals", 28ull * (th ? 20000 : 1200), "m * 10^-k for every m below 1200 (20000), 14 k, both signs",
           [](mc::Ctx& cx, uint64_t i)
           {
               static const std::vector<int> few = { 0, 1, 2, 3, 6, 15, 17 };
               all_settings(cx, trees::decimal_of(i), few);
           });
    ck.add("far precisions", trees::float_count / 24 + 1, "floats of every exponent (quick: every 20th), 3 mantissas, under 21 precisions from 18 to 1100 and 5 negative ones, 3 formats",
           [th](mc::Ctx& cx, uint64_t i)
           {
               if (!th && i % 20 && i > 2 && i + 3 < trees::float_count / 24)
                   return;
               static const std::vector<int> far = { 18, 24, 25, 28, 30, 31, 32, 33, 48, 60, 64, 90, 100, 127, 128, 129, 200, 256, 257, 512, 1100, -2, -3, -6, -7, -1000 };
               for (uint64_t k : { 0, 5, 17 })
                   if (i * 24 + k < trees::float_count)
                       for (int p : far)
                           for (auto f : { General, Fixed, Scientific })
                           {
                               one<json>(cx, trees::float_of(i * 24 + k), p, f, Option);
                               one<wjson>(cx, trees::float_of(i * 24 + k), p, f, Wrap);
                           }
           });
    // just below and above values that round over: k * 10^j (1 +- 2^-m)
    ck.add("rounding", 19 * 44 * 2 * 30, "k * 10^j for k in 1..19 (halves included), j in -22..21, times 1 +- 2^-m for m in 24..53",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               double     k = static_cast<double>(d(19) + 1) / 2, s = d(2) ? 1 : -1;
               int        j = static_cast<int>(d(44)) - 22;
               double     m = std::ldexp(1.0, -static_cast<int>(d(30) + 24));
               double     x = k * std::pow(10.0, j) * (1 + s * m);
               static const std::vector<int> few = { 0, 1, 6, 14, 16 };
               for (int p : few)
                   for (auto f : { General, Fixed, Scientific })
                       one<json>(cx, x, p, f, Option);
               one<json>(cx, x, -1, General, Option);
               one<json>(cx, -x, -1, General, Wrap);
           });
    // 2^53 .. 2^64: whole floats at the border of what fits
    ck.add("whole", 24 * 201, "whole floats and halves around 2^45 .. 2^68, 100 neighbours on each side",
           [](mc::Ctx& cx, uint64_t i)
           {
               double x = std::ldexp(1.0, static_cast<int>(i % 24) + 45);
               int    n = static_cast<int>(i / 24) - 100;
               for (; n > 0; --n)
                   x = std::nextafter(x, INFINITY);
               for (; n < 0; ++n)
                   x = std::nextafter(x, 0);
               static const std::vector<int> few = { 0, 3, 17 };
               all_settings(cx, x, few);
               all_settings(cx, -x, few);
           });
    // the stream's own settings, and up to two options over them: the last one is in force
    static const int    cps[] = { -1, 0, 2, 9 };
    static const double cds[] = { 1234.5, -0.000123456789, 1e300, 0.5, 9.9999995, 123456789.123, -1.5e-300, 2.5, 1e22 + 1e7, 5e-324 };
    ck.add("settings over settings", 10ull * 16 * 16 * 16 * 2, "10 floats, every precision (default, 0, 2, 9) and format of the stream, and the same again for a first and a second with_precision option (or none), direct and wide",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               double     x = cds[d(10)];
               bool       wide = d(2);
               int        prec[3], fmt[3];
               for (int k = 0; k < 3; ++k)
               {
                   prec[k] = cps[d(4)];
                   fmt[k]  = static_cast<int>(d(4));
               }
               if (prec[0] < 0 && fmt[0])
                   return;
               for (int k = 1; k < 3; ++k)
                   if (prec[k] < 0 && fmt[k])
                       return;  // no option: the format does not matter
               int  last = prec[2] >= 0 ? 2 : prec[1] >= 0 ? 1 : 0;
               auto run  = [&](auto tag)
               {
                   using J  = decltype(tag);
                   using Ch = typename J::value::char_type;
                   using P  = typename J::serializer;
                   std::basic_ostringstream<Ch> os;
                   if (prec[0] >= 0)
                   {
                       os.precision(prec[0]);
                       os.setf(flag_of[fmt[0]], std::ios_base::floatfield);
                   }
                   typename J::value v(x);
                   if (prec[1] >= 0 && prec[2] >= 0)
                       J::template dump<Ch>(os, v, { P::with_precision(prec[1], flag_of[fmt[1]]), P::with_precision(prec[2], flag_of[fmt[2]]) });
                   else if (last)
                       J::template dump<Ch>(os, v, { P::with_precision(prec[last], flag_of[fmt[last]]) });
                   else
                       J::template dump<Ch>(os, v);
                   return narrow(os.str());
               };
               std::string got;
               auto        e = attempt([&] { got = wide ? run(wjson{}) : run(json{}); });
               auto        what = [&]
               {
                   std::string w = std::to_string(x);
                   for (int k = 0; k < 3; ++k)
                       w += (k ? ", option " : " with stream ") + std::to_string(prec[k]) + "/" + std::to_string(fmt[k]);
                   return w;
               };
               cx.eval();
               if (e)
                   cx.fail("dumping " + what() + " ended with " + name(e));
               char buf[2000];
               int  pr = prec[last], f = fmt[last];
               std::snprintf(buf, sizeof buf, pr < 0 || f == General || f == Hex ? "%.*g" : f == Fixed ? "%.*f" : "%.*e", pr < 0 ? 6 : pr, x);
               std::string want = buf;
               if (x == std::floor(x) && std::fabs(x) < 9e18)
                   want = std::to_string(static_cast<long long>(x));
               Dec  a, b;
               bool point = false, dummy;
               if (!read_dec(got, a, point) || !point)
                   cx.fail("dumping " + what() + " wrote " + got);
               if (!read_dec(want, b, dummy) || !(a == b))
                   cx.fail("dumping " + what() + " wrote " + got + " instead of " + want);
               cx.outcome(mc::hash(got));
           });
    // non-finite numbers anywhere
    static const double nf[] = { INFINITY, -INFINITY, NAN, -NAN, std::numeric_limits<double>::signaling_NaN() };
    ck.add("non-finite", 5 * 40, "each non-finite number at every place of arrays and objects of up to 4 elements",
           [](mc::Ctx& cx, uint64_t i)
           {
               mc::Digits d(i);
               double     x = nf[d(5)];
               size_t     n = d(5), p = d(5);
               if (n == 0 || p >= n)
                   return;
               json::value a(configor::value_constant::array), o(configor::value_constant::object);
               for (size_t k = 0; k < n; ++k)
               {
                   a[k] = k == p ? json::value(x) : json::value(1.5);
                   o[std::string(1, static_cast<char>('a' + k))] = a[k];
               }
               json::value nested = json::array{ 1, a };
               for (auto v : { &a, &o, &nested })
               {
                   cx.eval();
                   auto e = attempt([&] { (void)json::dump(*v, { json::serializer::with_indent(2), json::serializer::with_precision(3) }); });
                   if (e != serialization)
                       cx.fail("a non-finite number in a container was not refused: " + std::string(name(e)));
                   std::wostringstream os;
                   e = attempt([&] { json::dump<wchar_t>(os, *v); });
                   if (e != serialization)
                       cx.fail("a non-finite number in a container was not refused when dumping to a wide stream: " + std::string(name(e)));
               }
           });
    return mc::run(ck, argc, argv);
}
