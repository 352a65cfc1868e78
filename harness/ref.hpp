// Reference implementations, independent of the code under test: Unicode codecs, the JSON dialect's
// parser (over code points), a strict RFC 8259 parser, and a plain value tree.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
using U = std::u32string;

enum Kind
{
    Null,
    Int,
    Float,
    Str,
    Arr,
    Obj,
    Bool
};

struct V
{
    Kind                        k = Null;
    bool                        b = false;
    int64_t                     i = 0;
    long double                 f = 0;
    bool                        f_edge = false;  // a literal too close to the limits of double to say which way it goes
    U                           s;
    std::vector<V>              a;
    std::vector<std::pair<U, V>> o;

    V() {}
    static V null() { return V(); }
    static V boolean(bool x)
    {
        V v;
        v.k = Bool;
        v.b = x;
        return v;
    }
    static V integer(int64_t x)
    {
        V v;
        v.k = Int;
        v.i = x;
        return v;
    }
    static V floating(long double x)
    {
        V v;
        v.k = Float;
        v.f = x;
        return v;
    }
    static V string(U x)
    {
        V v;
        v.k = Str;
        v.s = std::move(x);
        return v;
    }
    static V array(std::vector<V> x = {})
    {
        V v;
        v.k = Arr;
        v.a = std::move(x);
        return v;
    }
    static V object(std::vector<std::pair<U, V>> x = {})
    {
        V v;
        v.k = Obj;
        v.o = std::move(x);
        return v;
    }
};

inline bool surrogate(uint32_t c) { return c >= 0xD800 && c <= 0xDFFF; }
inline bool scalar(uint32_t c) { return c <= 0x10FFFF && !surrogate(c); }

// ---- encoders --------------------------------------------------------------------------------
inline void put8(std::string& o, uint32_t c)
{
    auto p = [&](uint32_t x) { o.push_back(static_cast<char>(static_cast<unsigned char>(x))); };
    if (c < 0x80)
        p(c);
    else if (c < 0x800)
        p(0xC0 + c / 64), p(0x80 + c % 64);
    else if (c < 0x10000)
        p(0xE0 + c / 4096), p(0x80 + c / 64 % 64), p(0x80 + c % 64);
    else
        p(0xF0 + c / 262144), p(0x80 + c / 4096 % 64), p(0x80 + c / 64 % 64), p(0x80 + c % 64);
}
template <class S>
void put16(S& o, uint32_t c)
{
    using Ch = typename S::value_type;
    if (c < 0x10000)
        o.push_back(static_cast<Ch>(c));
    else
    {
        o.push_back(static_cast<Ch>(0xD7C0 + c / 1024));
        o.push_back(static_cast<Ch>(0xDC00 + c % 1024));
    }
}
inline std::string utf8(const U& s)
{
    std::string r;
    for (auto c : s)
        put8(r, c);
    return r;
}
template <class Ch>
std::basic_string<Ch> utf16(const U& s)
{
    std::basic_string<Ch> r;
    for (auto c : s)
        put16(r, c);
    return r;
}
template <class Ch>
std::basic_string<Ch> utf32(const U& s)
{
    std::basic_string<Ch> r;
    for (auto c : s)
        r.push_back(static_cast<Ch>(c));
    return r;
}
// in the default encoding of a character type (by width)
template <class Ch>
std::basic_string<Ch> enc(const U& s)
{
    std::basic_string<Ch> r;
    for (auto c : s)
    {
        if constexpr (sizeof(Ch) == 1)
        {
            std::string t;
            put8(t, c);
            for (char x : t)
                r.push_back(static_cast<Ch>(x));
        }
        else if constexpr (sizeof(Ch) == 2)
            put16(r, c);
        else
            r.push_back(static_cast<Ch>(c));
    }
    return r;
}

// ---- decoders: one character at p; bad() is returned for an ill-formed one ---------------------
constexpr uint32_t bad = 0xFFFFFFFF;

// Unicode Table 3-7, written out
inline uint32_t get8(const unsigned char* s, size_t n, size_t& p)
{
    unsigned char c = s[p];
    auto          cont = [&](size_t i, unsigned lo = 0x80, unsigned hi = 0xBF) { return p + i < n && s[p + i] >= lo && s[p + i] <= hi; };
    auto          lo6  = [&](size_t i) { return static_cast<uint32_t>(s[p + i] & 0x3F); };
    uint32_t      r    = bad;
    if (c <= 0x7F)
    {
        ++p;
        return c;
    }
    if (c >= 0xC2 && c <= 0xDF)
    {
        if (cont(1))
        {
            r = static_cast<uint32_t>(c & 0x1F) * 64 + lo6(1);
            p += 2;
            return r;
        }
    }
    else if (c >= 0xE0 && c <= 0xEF)
    {
        if (cont(1, c == 0xE0 ? 0xA0 : 0x80, c == 0xED ? 0x9F : 0xBF) && cont(2))
        {
            r = static_cast<uint32_t>(c & 0xF) * 4096 + lo6(1) * 64 + lo6(2);
            p += 3;
            return r;
        }
    }
    else if (c >= 0xF0 && c <= 0xF4)
    {
        if (cont(1, c == 0xF0 ? 0x90 : 0x80, c == 0xF4 ? 0x8F : 0xBF) && cont(2) && cont(3))
        {
            r = static_cast<uint32_t>(c & 7) * 262144 + lo6(1) * 4096 + lo6(2) * 64 + lo6(3);
            p += 4;
            return r;
        }
    }
    ++p;
    return bad;
}
template <class Ch>
uint32_t get16(const Ch* s, size_t n, size_t& p)
{
    auto c = static_cast<uint32_t>(static_cast<typename std::make_unsigned<Ch>::type>(s[p]));
    ++p;
    if (c > 0xFFFF)
        return bad;
    if (!surrogate(c))
        return c;
    if (c >= 0xDC00 || p >= n)
        return bad;
    auto d = static_cast<uint32_t>(static_cast<typename std::make_unsigned<Ch>::type>(s[p]));
    if (d < 0xDC00 || d > 0xDFFF)
        return bad;
    ++p;
    return 0x10000 + (c - 0xD800) * 1024 + (d - 0xDC00);
}
template <class Ch>
uint32_t get32(const Ch* s, size_t, size_t& p)
{
    auto c = static_cast<uint32_t>(s[p]);
    ++p;
    return scalar(c) ? c : bad;
}
// whole text; an ill-formed character becomes one `bad` element and decoding stops there
template <class Ch>
U dec(const std::basic_string<Ch>& s)
{
    U      r;
    size_t p = 0;
    while (p < s.size())
    {
        uint32_t c;
        if constexpr (sizeof(Ch) == 1)
            c = get8(reinterpret_cast<const unsigned char*>(s.data()), s.size(), p);
        else if constexpr (sizeof(Ch) == 2)
            c = get16(s.data(), s.size(), p);
        else
            c = get32(s.data(), s.size(), p);
        r.push_back(c);
        if (c == bad)
            break;
    }
    return r;
}
inline U ascii(const std::string& s)
{
    U r;
    for (unsigned char c : s)
        r.push_back(c);
    return r;
}

// ---- parser ------------------------------------------------------------------------------------
struct Limits
{
    long double int_min = -9223372036854775808.0L, int_max = 9223372036854775807.0L;
    long double flt_max = 1.7976931348623157081e308L, flt_min = 2.3e-308L;
    long double tol     = 1e-12L;
};

enum Status
{
    Ok,
    Bad,     // must be rejected
    Either,  // the literal lies too close to a limit to say (Ok value is filled in)
};

// one class for both languages: strict RFC 8259, or the library's dialect
struct Parser
{
    const U&      t;
    bool          strict;
    const Limits& lim;
    size_t        p    = 0;  // index of the lookahead
    size_t        stop = 0;  // index of the character that decided an error, t.size() for the end
    Status        st   = Ok;
    bool          ended = false;

    Parser(const U& text, bool strict_, const Limits& l)
        : t(text)
        , strict(strict_)
        , lim(l)
    {
    }

    struct Err
    {
    };
    [[noreturn]] void err() const { throw Err{}; }
    // the lookahead; 0x110000 stands for the end
    uint32_t cur() const { return p < t.size() ? static_cast<uint32_t>(t[p]) : 0x110000; }
    void     next()
    {
        if (p < t.size())
            ++p;
    }
    bool at_end() const { return p >= t.size() || (!strict && t[p] == 0); }

    void ws()
    {
        for (;;)
        {
            while (cur() == ' ' || cur() == '\t' || cur() == '\n' || cur() == '\r')
                next();
            if (strict || cur() != '/')
                return;
            next();
            if (cur() == '/')
            {
                next();
                while (!at_end() && cur() != '\n' && cur() != '\r')
                {
                    if (cur() == bad)
                        err();
                    next();
                }
            }
            else if (cur() == '*')
            {
                next();
                for (;;)
                {
                    if (at_end() || cur() == bad)
                        err();
                    if (cur() == '*')
                    {
                        next();
                        if (cur() == '/')
                        {
                            next();
                            break;
                        }
                    }
                    else
                        next();
                }
            }
            else
                err();
        }
    }
    static bool dig(uint32_t c) { return c >= '0' && c <= '9'; }

    void word(const char* w)
    {
        for (; *w; ++w)
        {
            if (cur() != static_cast<unsigned char>(*w))
                err();
            next();
        }
    }
    V number()
    {
        std::string x;
        bool        neg = false;
        if (cur() == '-' || (!strict && cur() == '+'))
        {
            neg = cur() == '-';
            x += neg ? "-" : "";
            next();
        }
        if (!dig(cur()))
            err();
        bool flt = false;
        size_t sig = 0;
        if (cur() == '0')
        {
            x += '0';
            next();
            if (!strict && (cur() == 'e' || cur() == 'E'))
                err();
        }
        else
            while (dig(cur()))
            {
                x += static_cast<char>(cur());
                ++sig;
                next();
            }
        size_t frac = 0;
        bool   mant_edge = false;
        if (cur() == '.')
        {
            flt = true;
            x += '.';
            next();
            if (!dig(cur()))
                err();
            while (dig(cur()))
            {
                x += static_cast<char>(cur());
                ++frac;
                next();
            }
        }
        if (cur() == 'e' || cur() == 'E')
        {
            flt = true;
            if (!strict)
            {
                // digits that are themselves out of the float type's normal range are not promised a value
                long double d = std::fabs(std::strtold(x.c_str(), nullptr));
                mant_edge     = d != 0 && (d < lim.flt_min || d > lim.flt_max * (1 - lim.tol));
            }
            x += 'e';
            next();
            if (cur() == '+' || cur() == '-')
            {
                x += static_cast<char>(cur());
                next();
                if (!dig(cur()))
                    err();
            }
            else if (!dig(cur()) || (!strict && cur() == '0'))
                err();
            while (dig(cur()))
            {
                x += static_cast<char>(cur());
                next();
            }
        }
        if (!flt)
        {
            // exact integer arithmetic
            unsigned long long m = 0;
            bool               over = false;
            for (char c : x)
            {
                if (c == '-')
                    continue;
                unsigned d = static_cast<unsigned>(c - '0');
                if (m > (0x8000000000000000ull - d) / 10)
                    over = true;
                else
                    m = m * 10 + d;
            }
            // compare with the integer type's limits
            if (!over)
            {
                if (neg)
                    over = static_cast<long double>(m) > -lim.int_min;
                else
                    over = static_cast<long double>(m) > lim.int_max;
            }
            if (over)
            {
                if (strict)
                {
                    st = Either;
                    return V::floating(std::strtold(x.c_str(), nullptr));
                }
                err();
            }
            return V::integer(neg ? static_cast<int64_t>(0ull - m) : static_cast<int64_t>(m));
        }
        long double f = std::strtold(x.c_str(), nullptr);
        V           v = V::floating(f);
        long double m = std::fabs(f);
        if (mant_edge)
        {
            v.f_edge = true;
            st       = Either;
        }
        else if (m > lim.flt_max * (1 + lim.tol))
        {
            if (!strict)
            {
                err();
            }
        }
        else if (m > lim.flt_max * (1 - lim.tol))
        {
            v.f_edge = true;
            st       = Either;
        }
        return v;
    }
    uint32_t hex4()
    {
        uint32_t r = 0;
        for (int i = 0; i < 4; ++i)
        {
            uint32_t c = cur(), d;
            if (dig(c))
                d = c - '0';
            else if (c >= 'a' && c <= 'f')
                d = c - 'a' + 10;
            else if (c >= 'A' && c <= 'F')
                d = c - 'A' + 10;
            else
                err();
            r = r * 16 + d;
            next();
        }
        return r;
    }
    U str()
    {
        U r;
        next();
        for (;;)
        {
            uint32_t c = cur();
            if (p >= t.size() || c < 0x20)
                err();
            if (c == '"')
            {
                next();
                return r;
            }
            if (c != '\\')
            {
                if (c == bad)
                    err();
                r.push_back(c);
                next();
                continue;
            }
            next();
            c = cur();
            static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
            if (c == 'u')
            {
                next();
                uint32_t h = hex4();
                if (h >= 0xDC00 && h <= 0xDFFF)
                    err();
                if (h >= 0xD800 && h <= 0xDBFF)
                {
                    if (cur() != '\\')
                        err();
                    next();
                    if (cur() != 'u')
                        err();
                    next();
                    uint32_t l = hex4();
                    if (l < 0xDC00 || l > 0xDFFF)
                        err();
                    h = 0x10000 + (h - 0xD800) * 1024 + (l - 0xDC00);
                }
                r.push_back(h);
                continue;
            }
            const char* q = c < 0x80 && c ? std::strchr(from, static_cast<int>(c)) : nullptr;
            if (!q)
                err();
            r.push_back(static_cast<unsigned char>(to[q - from]));
            next();
        }
    }
    V value(int depth = 0)
    {
        ws();
        uint32_t c = cur();
        if (at_end())
            err();
        switch (c)
        {
        case 't':
            word("true");
            return V::boolean(true);
        case 'f':
            word("false");
            return V::boolean(false);
        case 'n':
            word("null");
            return V();
        case '"':
            return V::string(str());
        case '[':
        {
            V v = V::array();
            next();
            ws();
            if (cur() == ']')
            {
                next();
                return v;
            }
            for (;;)
            {
                v.a.push_back(value(depth + 1));
                ws();
                if (cur() == ']')
                {
                    next();
                    return v;
                }
                if (cur() != ',')
                    err();
                next();
                ws();
                if (!strict && cur() == ']')
                {
                    next();
                    return v;
                }
            }
        }
        case '{':
        {
            V           v = V::object();
            std::set<U> seen;  // of larger objects
            next();
            ws();
            if (cur() == '}')
            {
                next();
                return v;
            }
            for (;;)
            {
                ws();
                if (cur() != '"')
                    err();
                U key = str();
                ws();
                if (cur() != ':')
                    err();
                next();
                V    x   = value(depth + 1);
                bool dup = false;
                if (v.o.size() < 16)
                {
                    for (auto& m : v.o)
                        dup = dup || m.first == key;
                }
                else
                {
                    if (seen.empty())
                        for (auto& m : v.o)
                            seen.insert(m.first);
                    dup = !seen.insert(key).second;
                }
                if (!dup)
                    v.o.emplace_back(std::move(key), std::move(x));
                ws();
                if (cur() == '}')
                {
                    next();
                    return v;
                }
                if (cur() != ',')
                    err();
                next();
                ws();
                if (!strict && cur() == '}')
                {
                    next();
                    return v;
                }
            }
        }
        default:
            if (dig(c) || c == '-' || (!strict && c == '+'))
                return number();
            err();
        }
    }
    Status run(V& out)
    {
        try
        {
            out = value();
            ws();
            if (!at_end())
                err();
            return st;
        }
        catch (const Err&)
        {
            stop = p;
            return Bad;
        }
    }
};

inline Status parse(const U& text, V& out, const Limits& l = Limits(), size_t* reached = nullptr)
{
    Parser p(text, false, l);
    auto   s = p.run(out);
    if (reached)
        *reached = p.p;
    return s;
}
inline Status parse_strict(const U& text, V& out, const Limits& l = Limits())
{
    Parser p(text, true, l);
    return p.run(out);
}

inline std::string show(const V& v, int depth = 0)
{
    if (depth > 40)
        return "...";
    auto str = [](const U& s)
    {
        std::string r = "\"";
        char        b[16];
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (i > 200)
                return r + "...(" + std::to_string(s.size()) + ")\"";
            uint32_t c = s[i];
            if (c >= 0x20 && c < 0x7F && c != '"' && c != '\\')
                r += static_cast<char>(c);
            else
            {
                std::snprintf(b, sizeof b, "\\u{%X}", c);
                r += b;
            }
        }
        return r + "\"";
    };
    char b[64];
    switch (v.k)
    {
    case Null:
        return "null";
    case Bool:
        return v.b ? "true" : "false";
    case Int:
        return "int:" + std::to_string(v.i);
    case Float:
        std::snprintf(b, sizeof b, "float:%.20Lg", v.f);
        return b;
    case Str:
        return str(v.s);
    case Arr:
    {
        std::string r = "[";
        for (size_t i = 0; i < v.a.size(); ++i)
        {
            if (i > 50)
                return r + "...(" + std::to_string(v.a.size()) + ")]";
            r += (i ? "," : "") + show(v.a[i], depth + 1);
        }
        return r + "]";
    }
    case Obj:
    {
        std::string r = "{";
        for (size_t i = 0; i < v.o.size(); ++i)
        {
            if (i > 50)
                return r + "...(" + std::to_string(v.o.size()) + ")}";
            r += (i ? "," : "") + str(v.o[i].first) + ":" + show(v.o[i].second, depth + 1);
        }
        return r + "}";
    }
    }
    return "?";
}

struct Cmp
{
    long double rel = 0, abs = 0;  // float tolerance: 0 means bit-equal numbers
    bool        ordered = false;   // compare member order
    bool        zero_sign = true;
};

inline bool close(long double a, long double b, const Cmp& c)
{
    if (c.zero_sign && std::signbit(a) != std::signbit(b))
        return false;
    if (a == b)
        return true;
    return std::fabs(a - b) <= c.rel * std::fabs(b) + c.abs;
}

inline bool eq(const V& got, const V& want, const Cmp& c)
{
    if (got.k != want.k)
        return false;
    switch (got.k)
    {
    case Null:
        return true;
    case Bool:
        return got.b == want.b;
    case Int:
        return got.i == want.i;
    case Float:
        return want.f_edge || close(got.f, want.f, c);
    case Str:
        return got.s == want.s;
    case Arr:
        if (got.a.size() != want.a.size())
            return false;
        for (size_t i = 0; i < got.a.size(); ++i)
            if (!eq(got.a[i], want.a[i], c))
                return false;
        return true;
    case Obj:
    {
        if (got.o.size() != want.o.size())
            return false;
        std::map<U, const V*> at;
        for (size_t i = 0; i < got.o.size(); ++i)
        {
            // fast path: same position
            if (got.o[i].first == want.o[i].first)
            {
                if (!eq(got.o[i].second, want.o[i].second, c))
                    return false;
                continue;
            }
            if (c.ordered)
                return false;
            if (at.empty())
                for (auto& m : want.o)
                    at.emplace(m.first, &m.second);
            auto hit = at.find(got.o[i].first);
            if (hit == at.end() || !eq(got.o[i].second, *hit->second, c))
                return false;
        }
        return true;
    }
    }
    return false;
}

inline Cmp literal_cmp()
{
    Cmp c;
    c.rel = 1e-12L;
    c.abs = 1e-320L;
    return c;
}
}  // namespace ref
