// C04: the codecs are exact inverses and refuse ill-formed input.
#include "cfg.hpp"
#include <memory>
using namespace cf;
namespace en = configor::encoding;

// a buffer over given units that counts what was taken
template <class Ch>
struct In : std::basic_streambuf<Ch>
{
    std::basic_string<Ch> s;
    void                  set(const std::basic_string<Ch>& x)
    {
        s = x;
        this->setg(&s[0], &s[0], &s[0] + s.size());
    }
    size_t taken() const { return static_cast<size_t>(this->gptr() - this->eback()); }
};
template <class Ch>
struct Out : std::basic_streambuf<Ch>
{
    using T = std::char_traits<Ch>;
    std::basic_string<Ch> s;
    typename T::int_type  overflow(typename T::int_type c) override
    {
        s.push_back(T::to_char_type(c));
        return T::not_eof(c);
    }
    std::streamsize xsputn(const Ch* p, std::streamsize n) override
    {
        s.append(p, static_cast<size_t>(n));
        return n;
    }
};

enum Form
{
    F8,
    F16,
    F32
};
template <class Ch, Form F>
uint32_t ref_get(const std::basic_string<Ch>& s, size_t& p)
{
    if constexpr (F == F8)
    {
        unsigned char b[4];
        size_t        n = 0;
        for (; n < 4 && p + n < s.size(); ++n)
        {
            auto u = static_cast<uint32_t>(static_cast<typename std::make_unsigned<Ch>::type>(s[p + n]));
            if (u > 0xFF)
                break;
            b[n] = static_cast<unsigned char>(u);
        }
        if (n == 0)
        {
            ++p;
            return ref::bad;
        }
        size_t q = 0;
        auto   c = ref::get8(b, n, q);
        p += q;
        return c;
    }
    else if constexpr (F == F16)
        return ref::get16(s.data(), s.size(), p);
    else
        return ref::get32(s.data(), s.size(), p);
}
template <class Ch, Form F>
std::basic_string<Ch> ref_put(uint32_t c)
{
    std::basic_string<Ch> r;
    if constexpr (F == F8)
    {
        std::string t;
        ref::put8(t, c);
        for (unsigned char x : t)
            r.push_back(static_cast<Ch>(x));
    }
    else if constexpr (F == F16)
        ref::put16(r, c);
    else
        r.push_back(static_cast<Ch>(c));
    return r;
}

template <template <class> class Enc, class Ch, Form F>
struct Codec
{
    In<Ch>                 in;
    Out<Ch>                out;
    std::basic_istream<Ch> is{ &in };
    std::basic_ostream<Ch> os{ &out };
    static Codec&          get()
    {
        static Codec* c = new Codec;
        return *c;
    }
    // char16_t streams of the standard library cannot carry the unit 0xFFFF; no stream can carry the
    // unit that equals the traits' end mark
    static bool carried(const std::basic_string<Ch>& s)
    {
        using T = std::char_traits<Ch>;
        for (auto u : s)
            if (sizeof(Ch) > 1 && (T::eq_int_type(T::to_int_type(u), T::eof()) || !T::eq(T::to_char_type(T::to_int_type(u)), u)))
                return false;
        return true;
    }
    void decode(mc::Ctx& cx, const std::basic_string<Ch>& s, const char* name)
    {
        if (!carried(s))
            return;
        in.set(s);
        is.clear();
        cx.eval();
        size_t   p = 0;
        uint64_t h = static_cast<uint64_t>(F) * 8 + sizeof(Ch);
        for (int k = 0; k < 100000; ++k)
        {
            uint32_t got = 0x55555555;
            bool     ret = Enc<Ch>::decode(is, got);
            if (p >= s.size())
            {
                if (ret)
                    cx.fail(std::string(name) + " read a character after the end of " + mc::showw(s));
                break;
            }
            size_t   q    = p;
            uint32_t want = ref_get<Ch, F>(s, q);
            if (cx.verbose)
                cx.note(std::string(name) + " " + mc::showw(s) + " at " + std::to_string(p) + ": " + (ret ? "" : "end ") + (is.fail() ? "failed" : "U+" + std::to_string(got)));
            if (want == ref::bad)
            {
                h = mc::mix(h * 3 + 1);
                if (!is.fail() || !ret)
                    cx.fail(std::string(name) + " did not report the ill-formed unit " + std::to_string(p) + " of " + mc::showw(s)
                            + (ret ? ", it gave " + std::to_string(got) : ", it took it for the end"));
                break;
            }
            if (!ret || is.fail())
                cx.fail(std::string(name) + " refused the character at " + std::to_string(p) + " of " + mc::showw(s));
            if (got != want)
                cx.fail(std::string(name) + " read " + std::to_string(got) + " instead of " + std::to_string(want) + " at " + std::to_string(p) + " of " + mc::showw(s));
            if (in.taken() != q)
                cx.fail(std::string(name) + " consumed up to unit " + std::to_string(in.taken()) + " instead of " + std::to_string(q) + " of " + mc::showw(s));
            p = q;
            h = mc::mix(h * 3 + got);
        }
        cx.outcome(h);
    }
    void encode(mc::Ctx& cx, uint32_t c, const char* name)
    {
        if (ref::scalar(c) && !carried(ref_put<Ch, F>(c)))
            return;
        cx.eval();
        out.s.clear();
        os.clear();
        Enc<Ch>::encode(os, 'x');
        Enc<Ch>::encode(os, c);
        bool ok = os.good();
        if (ref::scalar(c))
        {
            auto want = Ch('x') + ref_put<Ch, F>(c);
            if (!ok || out.s != want)
                cx.fail(std::string(name) + " encoded " + std::to_string(c) + " as " + mc::showw(out.s) + (ok ? "" : " with a failure") + " instead of " + mc::showw(want));
            auto u = out.s;
            static const Ch foll[] = { 'y', Ch(0), Ch(0x7f) };
            decode(cx, u, name);
            for (auto f : foll)
                decode(cx, u + f, name);
            decode(cx, u + ref_put<Ch, F>(0xE9) + u, name);
        }
        else
        {
            if (ok || !os.fail())
                cx.fail(std::string(name) + " accepted the value " + std::to_string(c) + ", which is no scalar value, for encoding");
            if (out.s.size() != 1)
                cx.fail(std::string(name) + " wrote units for the value " + std::to_string(c) + ", which is no scalar value");
        }
    }
};

template <template <class> class Enc, class Ch, Form F>
void codec(mc::Check& ck, const std::string& name, bool th, bool full)
{
    using C = Codec<Enc, Ch, F>;
    static std::map<std::string, int> once;
    auto*                             nm = new std::string(name);
    const uint64_t                    step = 1;
    // every code point; for the secondary codecs in the quick tier every 7th (and all below U+3000) is enough to
    // keep the cost down: they are the same template
    ck.add("encode " + name, 0x110400 / 64 + 1, step == 1 ? "every value up to 0x110400 encoded, decoded back, and decoded with 5 continuations" : "every value below 0x3000 and every 7th up to 0x110400, likewise",
           [nm, step](mc::Ctx& cx, uint64_t i)
           {
               for (uint64_t k = 0; k < 64; ++k)
               {
                   uint64_t c = i * 64 + k;
                   if (c >= 0x3000 && c < 0x10FF00 && c % step && !(c >= 0xD7F0 && c <= 0xE010))
                       continue;
                   C::get().encode(cx, static_cast<uint32_t>(c), nm->c_str());
               }
           });
    ck.add("encode-large " + name, 32 * 33, "2^k + d for k < 32, |d| <= 16",
           [nm](mc::Ctx& cx, uint64_t i) { C::get().encode(cx, (1u << (i / 33)) + static_cast<uint32_t>(i % 33) - 16, nm->c_str()); });
    if constexpr (F == F8)
    {
        if (full)
        {
            ck.add("bytes3 " + name, 65536, "all sequences of one, two and three units below 256",
                   [nm](mc::Ctx& cx, uint64_t i)
                   {
                       std::basic_string<Ch> s{ static_cast<Ch>(i & 255), static_cast<Ch>(i >> 8) };
                       C::get().decode(cx, s, nm->c_str());
                       if (i < 256)
                           C::get().decode(cx, s.substr(0, 1), nm->c_str());
                       s += Ch(0);
                       for (unsigned b = 0; b < 256; ++b)
                       {
                           s[2] = static_cast<Ch>(b);
                           C::get().decode(cx, s, nm->c_str());
                       }
                   });
            if (th)
                ck.add("bytes4 " + name, 16 * 65536, "all sequences of four bytes with lead F0..FF",
                       [nm](mc::Ctx& cx, uint64_t i)
                       {
                           std::basic_string<Ch> s{ static_cast<Ch>(0xF0 | (i >> 16)), static_cast<Ch>(i & 255), static_cast<Ch>(i >> 8 & 255), Ch(0) };
                           for (unsigned b = 0; b < 256; ++b)
                           {
                               s[3] = static_cast<Ch>(b);
                               C::get().decode(cx, s, nm->c_str());
                           }
                       });
        }
        static const std::vector<uint32_t> rep = { 0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x1c3, 0x180 };
        const unsigned                     R = sizeof(Ch) == 1 ? 31 : 34;
        ck.add("words " + name, mc::words_upto(R, full ? 4 : 3), "all sequences of up to " + std::to_string(full ? 4 : 3) + " of the units at every boundary of the encoding's tables",
               [nm, R](mc::Ctx& cx, uint64_t i)
               {
                   std::basic_string<Ch> s;
                   for (auto x : mc::word(R, i))
                       s += static_cast<Ch>(rep[x]);
                   C::get().decode(cx, s, nm->c_str());
               });
        static const std::vector<uint32_t> rep5 = { 0x41, 0x80, 0x90, 0xa0, 0xbf, 0xc3, 0xe0, 0xe2, 0xed, 0xf0, 0xf1, 0xf4, 0xf8 };
        if (full)
            ck.add("words5 " + name, mc::ipow(13, th ? 6 : 5), "all sequences of 5 (6) of 13 units",
                   [nm, th](mc::Ctx& cx, uint64_t i)
                   {
                       mc::Digits            d(i);
                       std::basic_string<Ch> s;
                       for (int k = 0; k < (th ? 6 : 5); ++k)
                           s += static_cast<Ch>(rep5[d(13)]);
                       C::get().decode(cx, s, nm->c_str());
                   });
    }
    else if constexpr (F == F16)
    {
        static const std::vector<uint32_t> rep = { 0x41, 0, 0x7f, 0xffff, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xe000, 0xfffe, 0xd8ff, 0xdcff, 0x10041, 0x1d800, 0x1dc00 };
        const unsigned                     R = sizeof(Ch) == 2 ? 17 : 20;
        ck.add("pairs " + name, 65536, "every unit before and after each of the boundary units",
               [nm, R](mc::Ctx& cx, uint64_t i)
               {
                   for (unsigned r = 0; r < R; ++r)
                   {
                       std::basic_string<Ch> s{ static_cast<Ch>(i), static_cast<Ch>(rep[r]) };
                       C::get().decode(cx, s, nm->c_str());
                       std::swap(s[0], s[1]);
                       C::get().decode(cx, s, nm->c_str());
                       if (r == 0)
                           C::get().decode(cx, s.substr(1), nm->c_str());
                   }
               });
        ck.add("words " + name, mc::words_upto(R, full || th ? 5 : 4), "all sequences of up to 4 or 5 boundary units",
               [nm, R](mc::Ctx& cx, uint64_t i)
               {
                   std::basic_string<Ch> s;
                   for (auto x : mc::word(R, i))
                       s += static_cast<Ch>(rep[x]);
                   C::get().decode(cx, s, nm->c_str());
               });
        if (th && full)
            ck.add("all-pairs " + name, 2048ull * 256, "every surrogate followed by every unit",
                   [nm](mc::Ctx& cx, uint64_t i)
                   {
                       std::basic_string<Ch> s{ static_cast<Ch>(0xD800 + i / 256), Ch(0) };
                       for (uint32_t k = 0; k < 256; ++k)
                       {
                           s[1] = static_cast<Ch>((i % 256) * 256 + k);
                           C::get().decode(cx, s, nm->c_str());
                       }
                   });
    }
    else
    {
        ck.add("units " + name, 0x111000 / 64, "every unit up to 0x111000, alone, before and after others",
               [nm](mc::Ctx& cx, uint64_t i)
               {
                   for (uint64_t k = 0; k < 64; ++k)
                   {
                       auto c = static_cast<Ch>(i * 64 + k);
                       C::get().decode(cx, { c }, nm->c_str());
                       C::get().decode(cx, { Ch('a'), c, Ch(0x10ffff), c }, nm->c_str());
                   }
               });
        ck.add("units-large " + name, 32 * 33, "2^k + d for k < 32, |d| <= 16",
               [nm](mc::Ctx& cx, uint64_t i)
               {
                   auto c = static_cast<Ch>((1u << (i / 33)) + static_cast<uint32_t>(i % 33) - 16);
                   C::get().decode(cx, { c }, nm->c_str());
                   C::get().decode(cx, { Ch('a'), c, Ch('b') }, nm->c_str());
               });
    }
}

template <class Ch>
void pass_through(mc::Check& ck, const std::string& name)
{
    ck.add("ignore " + name, sizeof(Ch) == 1 ? 256 : 0x20000, "every unit (every 9th of the wide ones) decoded and encoded again, alone and after another",
           [](mc::Ctx& cx, uint64_t i)
           {
               auto u = static_cast<Ch>(sizeof(Ch) == 1 ? i : i * 9);
               using C = Codec<en::ignore, Ch, F8>;
               auto& c = C::get();
               for (auto& s : { std::basic_string<Ch>{ u }, std::basic_string<Ch>{ Ch('a'), u, u } })
               {
                   if (!C::carried(s))
                       return;
                   cx.eval();
                   c.in.set(s);
                   c.is.clear();
                   c.out.s.clear();
                   c.os.clear();
                   uint32_t cp = 0;
                   size_t   n  = 0;
                   while (en::ignore<Ch>::decode(c.is, cp))
                   {
                       cx.check(c.is.good(), "the ignore codec refused a unit");
                       cx.check(static_cast<Ch>(cp) == s[n], "the ignore codec changed a unit when reading");
                       en::ignore<Ch>::encode(c.os, cp);
                       cx.check(++n <= s.size(), "the ignore codec read past the end");
                       cx.check(c.in.taken() == n, "the ignore codec took more than one unit");
                   }
                   if (c.out.s != s || !c.os.good())
                       cx.fail("the ignore codec turned " + mc::showw(s) + " into " + mc::showw(c.out.s));
                   cx.outcome(mc::mix(i * 2 + 1) ^ sizeof(Ch));
               }
           });
}

int main(int argc, char** argv)
{
    mc::Check ck;
    ck.id   = "C04";
    ck.part = "main";
    bool th = mc::is_thorough(argc, argv);
    ck.rule = "every code point through every codec, every unit sequence within the stated bounds; a case is distinct by the codec and the sequence "
              "of characters read and refused";
    ck.assumptions = { "a unit equal to the character traits' end mark (char16_t U+FFFF, 32-bit 0xFFFFFFFF) cannot pass a standard stream and is left out" };
    codec<en::utf8, char, F8>(ck, "utf8<char>", th, true);
    codec<en::utf8, wchar_t, F8>(ck, "utf8<wchar_t>", th, th);
    codec<en::utf8, char16_t, F8>(ck, "utf8<char16_t>", th, false);
    codec<en::utf16, char16_t, F16>(ck, "utf16<char16_t>", th, true);
    codec<en::utf16, wchar_t, F16>(ck, "utf16<wchar_t>", th, th);
    codec<en::utf32, wchar_t, F32>(ck, "utf32<wchar_t>", th, true);
    codec<en::utf32, char32_t, F32>(ck, "utf32<char32_t>", th, false);
    codec<en::auto_utf, char, F8>(ck, "auto_utf<char>", th, false);
    codec<en::auto_utf, char16_t, F16>(ck, "auto_utf<char16_t>", th, false);
    codec<en::auto_utf, wchar_t, F32>(ck, "auto_utf<wchar_t>", th, false);
    codec<en::auto_utf, char32_t, F32>(ck, "auto_utf<char32_t>", th, false);
    pass_through<char>(ck, "char");
    pass_through<wchar_t>(ck, "wchar_t");
    return mc::run(ck, argc, argv);
}
